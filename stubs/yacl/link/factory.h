#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
class FactoryMem { public: std::shared_ptr<Context> CreateContext(const ContextDesc& d, size_t r) { return std::make_shared<Context>(std::make_shared<MiniWorld>(), d.id, r, d.parties.size(), d); } };
class FactoryBrpc : public FactoryMem {};
}
