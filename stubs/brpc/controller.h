#pragma once
#include "brpc/server.h"
