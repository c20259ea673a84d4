// C04: a parallel loop runs every iteration exactly once, under every schedule.
#define VF_MAIN
#include "vf.hpp"
#include "vsched.hpp"
#include <memory>
#include "mllm/engine/HpcThreadPool.hpp"
#include "mllm/utils/Log.hpp"
mllm::LogLevel mllm::Logger::level_ = (mllm::LogLevel)9;
using namespace mllm;

// One loop: counts[i] is written by the iteration for value i only, without synchronisation - if the pool returns
// before an iteration has finished, or runs two of them at once, the race detector or the count shows it.
struct Loop {
  int start, end, step; std::vector<int> n; std::vector<int> order;
  Loop(int s, int e, int st) : start(s), end(e), step(st), n(e > s ? e - s : 0) {}
  void run(HpcThreadPool& p, int slot) {
    HpcThreadPoolTask t; t.start = start; t.end = end; t.step = step;
    t.func = [this](int i) {
      if (i < start || i >= end || (i - start) % step) vs::fail("wrong-iteration", vf::cat("iteration ", i, " is not one of ", what()));
      n[i - start]++;
    };
    p.push(std::move(t), slot);
    check();
  }
  std::string what() { return vf::cat("the loop ", start, "..", end, " step ", step); }
  void check() {
    for (int i = start; i < end; ++i) {
      int want = (i - start) % step == 0;
      if (n[i - start] != want) vs::fail(n[i - start] < want ? "iteration-missed" : "iteration-repeated", vf::cat("iteration ", i, " of ", what(), " ran ", n[i - start], " times before the loop returned"));
    }
  }
};

void vf_job(const std::string& name, const std::map<std::string, long>& o, vf::Stats& st) {
  auto g = [&](const char* k, long d) { auto it = o.find(k); return it == o.end() ? d : it->second; };
  vs::Opt opt; opt.preemptions = g("bound", 2); opt.detours = g("detours", 1); opt.max_execs = g("max", 1L << 40);
  int threads = g("threads", 2);
  if (name == "ranges") {        // every small range, step and worker count, in the default schedule only
    opt.preemptions = 0;
    for (int th = 0; th <= 4; ++th) for (int s = 0; s <= 3; ++s) for (int e = s; e <= s + 9; ++e) for (int stp = 1; stp <= 4; ++stp) for (int act = 0; act < 2; ++act) {
      int reps = 0;
      vs::Opt q = opt; q.max_execs = 3;
      vs::explore(q, st, [&] {
        HpcThreadPool p(th);
        if (act) p.activate();
        int slot = p.acquireTaskSlot();
        Loop l(s, e, stp); l.run(p, slot);
        p.releaseTaskSlot(slot);
        if (act) p.deactivate();
      }, vf::cat("threads=", th, " range=", s, "..", e, " step=", stp, " active=", act));
      (void)reps;
    }
    st.exhaustive = true;
    return;
  }
  vs::explore(opt, st, [&] {
    if (name == "loop") {
      HpcThreadPool p(threads); p.activate();
      int slot = p.acquireTaskSlot();
      Loop l(0, g("n", 3), g("step", 1)); l.run(p, slot);
      p.releaseTaskSlot(slot); p.deactivate();
    } else if (name == "two-loops") {
      HpcThreadPool p(threads); p.activate();
      int slot = p.acquireTaskSlot();
      { Loop l(0, 3, 1); l.run(p, slot); }
      { Loop l(1, 6, 2); l.run(p, slot); }
      p.releaseTaskSlot(slot); p.deactivate();
    } else if (name == "two-callers") {
      HpcThreadPool p(threads); p.activate();
      auto work = [&] { int slot = p.acquireTaskSlot(); Loop l(0, g("n", 2), 1); l.run(p, slot); p.releaseTaskSlot(slot); };
      std::thread t(work); work(); t.join(); p.deactivate();
    } else if (name == "three-callers") {
      HpcThreadPool p(threads); p.activate();
      auto work = [&] { int slot = p.acquireTaskSlot(); Loop l(0, 2, 1); l.run(p, slot); p.releaseTaskSlot(slot); };
      std::thread t(work), u(work); work(); t.join(); u.join(); p.deactivate();
    } else if (name == "restart") {       // activate again right after a deactivate; destroy while active
      HpcThreadPool p(threads);
      for (int i = 0; i < 2; ++i) { p.activate(); int s = p.acquireTaskSlot(); Loop l(0, 2, 1); l.run(p, s); p.releaseTaskSlot(s); p.deactivate(); }
    } else if (name == "nested-activate") {
      HpcThreadPool p(threads); p.activate(); p.activate(); p.deactivate();
      int s = p.acquireTaskSlot(); Loop l(0, 2, 1); l.run(p, s); p.releaseTaskSlot(s); p.deactivate();
    } else if (name == "destroy-active") {
      HpcThreadPool p(threads); p.activate();
      int s = p.acquireTaskSlot(); Loop l(0, 2, 1); l.run(p, s); p.releaseTaskSlot(s);
    } else if (name == "never-activated") {
      HpcThreadPool p(threads);
      int s = p.acquireTaskSlot(); Loop l(0, 2, 1); l.run(p, s); p.releaseTaskSlot(s);
    } else if (name == "idle") {
      HpcThreadPool p(threads); p.activate();
      int s = p.acquireTaskSlot();
      p.idle(); { Loop l(0, 2, 1); l.run(p, s); }
      p.wakeup(); { Loop l(0, 2, 1); l.run(p, s); }
      p.releaseTaskSlot(s); p.deactivate();
    } else if (name == "idle-concurrent") {      // another thread idles and wakes the pool while a loop runs
      HpcThreadPool p(threads); p.activate();
      std::thread t([&] { p.idle(); p.wakeup(); });
      int s = p.acquireTaskSlot(); Loop l(0, 2, 1); l.run(p, s); p.releaseTaskSlot(s);
      t.join(); p.deactivate();
    } else if (name == "deactivate-concurrent") {   // one user stops while another one's loop is under way
      HpcThreadPool p(threads); p.activate();
      std::thread t([&] { p.activate(); p.deactivate(); });
      int s = p.acquireTaskSlot(); Loop l(0, 2, 1); l.run(p, s); p.releaseTaskSlot(s);
      t.join(); p.deactivate();
    } else if (name == "destroy-idle") {
      HpcThreadPool p(threads); p.activate(); p.idle();
    } else if (name == "idle-twice") {
      HpcThreadPool p(threads); p.activate(); p.idle(); p.idle(); p.wakeup();
      int s = p.acquireTaskSlot(); Loop l(0, 3, 1); l.run(p, s); p.releaseTaskSlot(s); p.deactivate();
    } else if (name == "stop-concurrent") {        // the global shutdown hook, while a loop may be under way
      HpcThreadPool p(threads); p.activate();
      std::thread t([&] { p.__threadPoolDestroy(); });
      int s = p.acquireTaskSlot(); Loop l(0, 2, 1); l.run(p, s); p.releaseTaskSlot(s);
      t.join();
    }
  }, name);
}
