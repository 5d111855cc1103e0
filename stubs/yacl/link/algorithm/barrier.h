#pragma once
#include "yacl/link/algorithm/allgather.h"
namespace yacl::link { inline void Barrier(const std::shared_ptr<Context>& c, std::string_view tag) { AllGather(c, ByteContainerView("x", 1), tag); } }
