// Stand-in for mllm/engine/Context.hpp in the checks: the original drags in stdexec, which is not installed.
// Operators run synchronously on the calling thread (reshape, setup, forward - as the CPU dispatcher does), memory
// comes from the heap with exactly the requested size, so that the address sanitizer sees every stray access.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <memory>
#include <unordered_map>
#include <nlohmann/json.hpp>
#include "mllm/core/BaseOp.hpp"
#include "mllm/core/DeviceTypes.hpp"
#include "mllm/core/OpTypes.hpp"
#include "mllm/core/Storage.hpp"
#include "mllm/core/Tensor.hpp"
#include "mllm/core/TensorStorage.hpp"
#include "mllm/backends/base/Backend.hpp"

namespace mllm {

class ShimMemory {
 public:
  using ptr_t = std::shared_ptr<ShimMemory>;
  long live = 0;
  int fill = 0xA5;     // what fresh memory contains
  void alloc(Storage* s) {
    size_t n = s->size_ ? s->size_ : 1;
    void* p = nullptr;
    if (posix_memalign(&p, 32, n)) std::abort();
    memset(p, fill, n);
    s->ptr_ = p; live++;
  }
  void alloc(const std::shared_ptr<Storage>& s) { alloc(s.get()); }
  void alloc(const std::shared_ptr<TensorStorage>& s) { alloc((Storage*)s.get()); }
  void free(Storage* s) { if (s->ptr_) { ::free(s->ptr_); s->ptr_ = nullptr; live--; } }
  void free(const std::shared_ptr<Storage>& s) { free(s.get()); }
};

class Context {
 public:
  static Context& instance() { static Context* c = new Context(); return *c; }
  ShimMemory::ptr_t memoryManager() { return mem_; }
  uint32_t getUUID() { return uuid_++; }
  uint64_t getRandomState() { return 42; }
  int32_t getCpuOpThreads() const { return threads_; }
  void setCpuOpThreads(int32_t n) { threads_ = n; }
  int getPrintPrecision() const { return 4; }
  int getPrintMaxElementsPerDim() const { return 12; }
  std::unordered_map<int, std::shared_ptr<BaseOpFactory>> factories;
  template<class F> void reg() { auto f = std::make_shared<F>(); factories[(int)f->opType()] = f; }

  std::vector<Tensor> buildOpAndSubmitTask(OpTypes t, const BaseOpOptionsBase& o, const std::vector<Tensor>& in, DeviceTypes = kDeviceTypes_End) {
    auto it = factories.find((int)t);
    if (it == factories.end()) std::abort();
    auto op = it->second->create(o);
    return run(*op, in);
  }
  static std::vector<Tensor> run(BaseOp& op, const std::vector<Tensor>& in) {
    std::vector<Tensor> out;
    op.reshape(in, out);
    op.setup(in, out);
    op.forward(in, out);
    return out;
  }

 private:
  ShimMemory::ptr_t mem_ = std::make_shared<ShimMemory>();
  std::atomic<uint32_t> uuid_ = 0;
  int32_t threads_ = 1;
};

}  // namespace mllm
