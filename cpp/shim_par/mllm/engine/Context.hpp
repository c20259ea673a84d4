// Stands for the engine context when only the parallel-loop macros are under test.
#pragma once
#include <memory>
#include "mllm/backends/cpu/CPUBackend.hpp"
namespace mllm {
enum DeviceTypes { kCPU = 1 };
struct Context {
  static Context& instance() { static Context c; return c; }
  std::shared_ptr<Backend> getBackend(DeviceTypes) { return cpu; }
  std::shared_ptr<cpu::CPUBackend> cpu;
};
}  // namespace mllm
