#pragma once
#include <chrono>
namespace yacl {
class ElapsedTimer { public: explicit ElapsedTimer(bool = true) {} double CountMs() const { return 0; } double CountSec() const { return 0; } void Pause() {} void Resume() {} void Restart() {} };
}
