// C03, threads: every interleaving of concurrent allocations and frees.
#define VF_MAIN
#include "vf.hpp"
#include "vsched.hpp"
#include <memory>
#include <thread>
#include "mllm/engine/MemoryManager.hpp"
#include "mllm/backends/cpu/CPUAllocator.hpp"
#include "mllm/utils/Log.hpp"
mllm::LogLevel mllm::Logger::level_ = (mllm::LogLevel)9;
using namespace mllm;

static void use(MemoryManager& m, uint32_t id, size_t n, bool hold, std::shared_ptr<Storage>* keep = nullptr) {
  auto s = std::make_shared<Storage>(); s->size_ = n; s->custom_32bit_uuid_ = id;
  m.alloc(s.get());
  auto* p = (uint8_t*)s->ptr_;
  if (!p) vs::fail("no-memory", "an allocation gave nothing");
  for (size_t i = 0; i < n; ++i) p[i] = id + i;
  if (hold) std::this_thread::yield();
  for (size_t i = 0; i < n; ++i) if (p[i] != (uint8_t)(id + i)) vs::fail("bytes-lost", "a live block was overwritten");
  if (keep) *keep = s; else m.free(s.get());
}

void vf_job(const std::string& name, const std::map<std::string, long>& o, vf::Stats& st) {
  vs::Opt opt; opt.preemptions = o.at("bound"); opt.detours = o.at("detours");
  long nt = o.at("threads"), rounds = o.at("rounds"), size = o.at("size"), caches = o.at("caches"), cross = o.at("cross");
  vs::explore(opt, st, [&] {
    MemoryManager m; MemoryManagerOptions mo; mo.really_large_tensor_threshold = 4096;
    auto& b = mo.buddy_mem_pool_options; b.buddy_min_order = 6; b.buddy_max_order = 8; b.buddy_first_segment_cap = 256;
    if (caches) { b.cache_small_obj_enabled = true; b.cache_size_set = {64, 128}; }
    m.registerAllocator(kCPU, std::make_shared<cpu::CPUAllocator>(), mo);
    std::shared_ptr<Storage> given[4];
    if (cross) for (int t = 1; t < nt; ++t) use(m, 500 + t, size, false, &given[t]);       // freed by another thread than its maker
    auto work = [&](int t) {
      if (cross && given[t]) m.free(given[t].get());
      for (int r = 0; r < rounds; ++r) use(m, 10 * t + r, (size >> (r % 2)) + 1 - (r % 2), true);
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < nt; ++t) ts.emplace_back(work, t);
    work(0);
    for (auto& t : ts) t.join();
    use(m, 99, 200, false);
  }, name);
}
