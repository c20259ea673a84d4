// C04: the parallel-loop macros (mllm/core/Parallel.hpp), with the thread pool or (SERIAL) as ordinary loops.
#define VF_MAIN
#include "vf.hpp"
#include "vsched.hpp"
#include "mllm/core/Parallel.hpp"
#include "mllm/utils/Log.hpp"
mllm::LogLevel mllm::Logger::level_ = (mllm::LogLevel)9;
using namespace mllm;

void vf_job(const std::string& name, const std::map<std::string, long>& o, vf::Stats& st) {
  auto g = [&](const char* k, long d) { auto it = o.find(k); return it == o.end() ? d : it->second; };
  int big = g("big", 9);
  auto judge = [&](const std::vector<int>& n, int s, int e, int step, const std::string& what) {
    for (int i = 0; i < (int)n.size(); ++i) {
      int want = i >= s && i < e && (i - s) % step == 0;
      if (n[i] != want) vs::fail(n[i] < want ? "iteration-missed" : "iteration-repeated", vf::cat("iteration ", i, " of ", what, " ran ", n[i], " times"));
    }
  };
  for (int th = 0; th <= (int)g("threads", 3); ++th) for (int s = 0; s <= 2; ++s) for (int e = s; e <= s + big; ++e) for (int stp = 1; stp <= 4; ++stp) {
    vs::Opt opt; opt.preemptions = 0; opt.max_execs = g("execs", 2);
    vs::explore(opt, st, [&] {
      auto bk = std::make_shared<cpu::CPUBackend>();
      bk->pool = std::make_shared<HpcThreadPool>(th);
      bk->pool->activate(); bk->slot = bk->pool->acquireTaskSlot();
      Context::instance().cpu = bk;
      std::string w = vf::cat("the loop ", s, "..", e, " step ", stp);
      std::vector<int> a(s + big + 8), b(a), c(a), d(a);
      if (s == 0 && stp == 1) { MLLM_AUTO_PARALLEL_BEGIN(i, e) { a[i]++; } MLLM_AUTO_PARALLEL_END() judge(a, 0, e, 1, w); }
      MLLM_AUTO_PARALLEL_FOR_BEGIN(i, s, e, stp) { b[i]++; } MLLM_AUTO_PARALLEL_FOR_END() judge(b, s, e, stp, w);
      MLLM_AUTO_PARALLEL_FOR_BEGIN_NT(i, s, e, stp, 2) { c[i]++; } MLLM_AUTO_PARALLEL_FOR_END_NT() judge(c, s, e, stp, w + " with a thread count");
      // a loop inside another one, as expressions
      int lo = s, hi = e;
      MLLM_AUTO_PARALLEL_FOR_BEGIN(i, lo - 0, hi + 1, stp + 0) { d[i]++; } MLLM_AUTO_PARALLEL_FOR_END() judge(d, s, e + 1, stp, w + " (one longer)");
      bk->pool->releaseTaskSlot(bk->slot); bk->pool->deactivate();
      Context::instance().cpu = nullptr;
    }, vf::cat(name, " threads=", th, " range=", s, "..", e, " step=", stp));
  }
  st.exhaustive = true;
}
