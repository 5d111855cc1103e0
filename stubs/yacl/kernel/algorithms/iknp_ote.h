#pragma once
#include "yacl/kernel/algorithms/base_ot.h"
