#pragma once
#include "mlir/stub.h"
