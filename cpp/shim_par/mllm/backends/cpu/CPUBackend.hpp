#pragma once
#include <memory>
#include "mllm/engine/HpcThreadPool.hpp"
namespace mllm {
struct Backend { virtual ~Backend() = default; };
namespace cpu {
struct CPUBackend : Backend {
  std::shared_ptr<HpcThreadPool> pool; int slot = -1;
  std::shared_ptr<HpcThreadPool> getThreadPool() { return pool; }
  int taskIndex() { return slot; }
};
}  // namespace cpu
}  // namespace mllm
