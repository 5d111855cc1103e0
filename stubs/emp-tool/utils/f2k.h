#pragma once
#include "emp-tool/utils/block.h"
