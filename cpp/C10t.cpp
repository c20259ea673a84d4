// C10, threads: handles to one object copied and dropped by several threads.
#define VF_MAIN
#include "vf.hpp"
#include "vsched.hpp"
#include <memory>
#include <thread>
#include "mllm/utils/IntrusivePtr.hpp"
using namespace mllm;
static int g_dead;
// every thread leaves a mark of its own before it drops its handle; the destructor reads them all, so that a release
// that is not ordered before the destruction shows up as a data race
struct Obj : RefCountedBase { int mark[4] = {}; ~Obj() override { g_dead++; for (int& m : mark) m++; } };
struct Sub : Obj {};
using P = IntrusivePtr<Obj>;

void vf_job(const std::string& name, const std::map<std::string, long>& o, vf::Stats& st) {
  vs::Opt opt; opt.preemptions = o.at("bound"); opt.detours = 2;
  long nt = o.at("threads"), mode = o.at("mode");
  vs::explore(opt, st, [&] {
    g_dead = 0;
    {
      std::vector<P> given;
      { IntrusivePtr<Sub> p = make_intrusive<Sub>(); for (int t = 0; t < nt; ++t) given.emplace_back(p); }
      auto work = [&](int t) {
        P h(std::move(given[t]));
        if (mode == 0) { h->mark[t]++; h.reset(); }
        else if (mode == 1) { P c(h); h.reset(); c->mark[t]++; P e = c; c = nullptr; e->mark[t]++; }
        else { P c(h), e(std::move(h)); e->mark[t]++; c.swap(e); c.reset(); e->mark[t]++; }
      };
      std::vector<std::thread> ts;
      for (int t = 1; t < nt; ++t) ts.emplace_back(work, t);
      work(0);
      for (auto& t : ts) t.join();
    }
    if (g_dead != 1) vs::fail(g_dead ? "destroyed-twice" : "leaked", vf::cat("the object was destroyed ", g_dead, " times"));
  }, name);
}
