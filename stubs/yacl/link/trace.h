#pragma once
#include <memory>
#include <string>
#include <string_view>
#include "yacl/base/byte_container_view.h"
namespace yacl::link {
class TraceLogger { public: virtual ~TraceLogger() = default; static void SetLogger(std::shared_ptr<TraceLogger>) {} virtual void LinkTrace(std::string_view, std::string_view, ByteContainerView) {} 
 protected: virtual void LinkTraceImpl(std::string_view, std::string_view, std::string_view) {} };
}
