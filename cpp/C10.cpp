// C10: an object dies exactly with its last owner: intrusive handles, and tensors over shared storage.
#define VF_MAIN
#include "vf.hpp"
#include <memory>
#include "mllm/utils/IntrusivePtr.hpp"
#include "mllm/utils/WeakOwner.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/core/Tensor.hpp"
#include "mllm/backends/cpu/ops/ViewOp.hpp"
#include "mllm/backends/cpu/ops/SliceOp.hpp"
#include "mllm/utils/Log.hpp"
mllm::LogLevel mllm::Logger::level_ = (mllm::LogLevel)9;
using namespace mllm; using vf::cat; using vf::fail;

// ---------------------------------------------------------------- handles
static int g_alive[64], g_born;
struct Base : RefCountedBase { int id; int mark = 7; Base() : id(g_born++) { if (id < 64) g_alive[id] = 1; } ~Base() override { mark = 0; if (id < 64) g_alive[id]--; } };
struct Derived : Base { int more = 9; ~Derived() override { more = 0; } };
using PB = IntrusivePtr<Base>; using PD = IntrusivePtr<Derived>;

// handles 0..nb-1 are PB, nb..n-1 are PD
struct Handles {
  int nb, nd, limit; std::vector<PB> b; std::vector<PD> d; std::vector<int> r;       // reference: object of each handle, -1 none
  struct Cfg { int nb, nd, objs; };
  Handles(const Cfg& c) : nb(c.nb), nd(c.nd), limit(c.objs), b(c.nb), d(c.nd), r(c.nb + c.nd, -1) { g_born = 0; memset(g_alive, 0, sizeof g_alive); }
  ~Handles() { }
  int live() { std::set<int> s(r.begin(), r.end()); s.erase(-1); return s.size(); }
  std::vector<vf::Act> actions() {
    std::vector<vf::Act> v; int n = nb + nd;
    if (live() < limit && g_born < 60) for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) v.push_back({"new", {i, k}});
    for (int i = 0; i < n; ++i) {
      if (r[i] >= 0) { v.push_back({"reset", {i}}); v.push_back({"through-copy", {i}}); v.push_back({"raw", {i}}); v.push_back({"in-container", {i}}); }
      for (int j = 0; j < n; ++j) {
        if (i < nb || j >= nb) for (int k = 0; k < 6; ++k) v.push_back({"take", {i, j, k}});       // base from any, derived from derived
        if (j > i && (i < nb) == (j < nb)) v.push_back({"swap", {i, j}});
      }
    }
    return v;
  }
  template<class P, class Q> void take(P& x, Q& y, int k, bool& moved) {
    switch (k) {
      case 0: x = y; break;
      case 1: x = std::move(y); moved = true; break;
      case 2: { P t(y); x = t; break; }
      case 3: { P t(std::move(y)); x = std::move(t); moved = true; break; }
      case 4: x = y.get(); break;                         // a further handle from the bare object
      case 5: x.reset(y.get()); break;
    }
  }
  void apply(const vf::Act& a) {
    int i = a.a[0];
    if (a.op == "new") {
      int id = g_born;
      if (i < nb) { if (a.a[1] == 0) b[i] = make_intrusive<Base>(); else if (a.a[1] == 1) b[i] = make_intrusive<Derived>(); else b[i] = PB(new Base); }
      else { auto& h = d[i - nb]; if (a.a[1] == 0) h = make_intrusive<Derived>(); else if (a.a[1] == 1) h.reset(new Derived); else h = new Derived; }
      r[i] = id;
    } else if (a.op == "reset") { if (i < nb) b[i].reset(); else d[i - nb].reset(); r[i] = -1; }
    else if (a.op == "through-copy") {
      if (i < nb) { PB t(b[i]); PB u(t); t.reset(); if (u.get() != b[i].get()) fail("copy", "a copy refers to something else"); }
      else { PD t(d[i - nb]); PB u(t); PB w(std::move(t)); if (u != d[i - nb] || w.get() != u.get() || t) fail("convert", "a converted handle refers to something else"); }
    } else if (a.op == "raw") {      // take ownership again while owned
      if (i < nb) { PB t(b[i].get()); } else { PB t(d[i - nb].get()); }
    } else if (a.op == "in-container") {
      if (i < nb) { std::vector<PB> v; for (int k = 0; k < 3; ++k) v.push_back(b[i]); v.erase(v.begin()); v.insert(v.begin(), b[i]); if (v[2].get() != b[i].get()) fail("container", "lost"); }
      else { std::vector<PD> v; for (int k = 0; k < 3; ++k) v.push_back(d[i - nb]); v.erase(v.begin()); }
    } else if (a.op == "swap") {
      int j = a.a[1];
      if (i < nb) { if (i & 1) b[i].swap(b[j]); else mllm::swap(b[i], b[j]); } else d[i - nb].swap(d[j - nb]);
      std::swap(r[i], r[j]);
    } else if (a.op == "take") {
      int j = a.a[1], k = a.a[2]; bool moved = false;
      if (i < nb && j < nb) take(b[i], b[j], k, moved); else if (i < nb) take(b[i], d[j - nb], k, moved); else take(d[i - nb], d[j - nb], k, moved);
      r[i] = r[j];
      if (moved && i != j) r[j] = -1;
    } else fail("action", a.op);
  }
  void check() {
    std::map<int, int> cnt; for (int x : r) if (x >= 0) cnt[x]++;
    for (int o = 0; o < g_born; ++o) if (g_alive[o] != (cnt.count(o) ? 1 : 0)) fail(g_alive[o] > 0 ? "leaked" : g_alive[o] < 0 ? "destroyed-twice" : "destroyed-early", cat("object ", o, " has ", cnt[o], " owners and was destroyed ", 1 - g_alive[o], " times"));
    for (int i = 0; i < nb + nd; ++i) {
      Base* p = i < nb ? b[i].get() : d[i - nb].get();
      bool on = i < nb ? (bool)b[i] : (bool)d[i - nb];
      long uc = i < nb ? b[i].use_count() : d[i - nb].use_count();
      if (on != (r[i] >= 0) || (p != nullptr) != on) fail("handle", cat("handle ", i, r[i] >= 0 ? " should refer to an object" : " should be empty"));
      if (r[i] < 0) { if (uc) fail("count", "an empty handle has a count"); continue; }
      if (p->id != r[i] || p->mark != 7) fail("handle", cat("handle ", i, " refers to object ", p->id, ", not ", r[i]));
      if (uc != cnt[r[i]]) fail("count", cat("object ", r[i], " has ", cnt[r[i]], " owners but counts ", uc));
    }
  }
  std::string fingerprint() { std::map<int, int> ren; std::string s; for (int x : r) { if (x >= 0 && !ren.count(x)) { int k = ren.size(); ren[x] = k; } s += cat(x < 0 ? -1 : ren[x], ","); } return s; }
};

// ---------------------------------------------------------------- tensors
struct Tensors {
  struct Ref { int obj = -1; std::vector<int> el; };    // storage, element numbers in it
  int n, objs = 0, limit; std::vector<Tensor> t; std::vector<Ref> r; long live0;
  struct Cfg { int n, limit; };
  Tensors(const Cfg& c) : n(c.n), limit(c.limit), t(c.n), r(c.n), live0(Context::instance().memoryManager()->live) {}
  std::vector<int> view = std::vector<int>(16, -1); int views = 0; std::map<int, int> attached;   // handle -> view; view -> attached storage o, whose own view is -2 - o
  int alive() {
    std::set<int> s;
    for (int i = 0; i < n; ++i) if (r[i].obj >= 0) { s.insert(r[i].obj); for (auto it = attached.find(view[i]); it != attached.end(); it = attached.find(-2 - it->second)) s.insert(it->second); }
    return s.size();
  }
  std::vector<vf::Act> actions() {
    std::vector<vf::Act> v;
    for (int i = 0; i < n; ++i) {
      if (alive() < limit) v.push_back({"new", {i}});
      if (r[i].obj < 0) continue;
      v.push_back({"drop", {i}}); v.push_back({"delete", {i}}); v.push_back({"operator-delete", {i}});
      if (alive() < limit && !attached.count(view[i])) v.push_back({"attach", {i}});
      for (int j = 0; j < n; ++j) {
        v.push_back({"copy", {i, j}}); v.push_back({"move", {i, j}}); v.push_back({"view", {i, j}});
        if (r[i].el.size() > 1) { v.push_back({"slice", {i, j, 0}}); v.push_back({"slice", {i, j, 1}}); }
        if (attached.count(view[i])) v.push_back({"get", {i, j}});
      }
    }
    return v;
  }
  static std::vector<int> iota4() { return {0, 1, 2, 3}; }
  int val(int o, int e) { return 100 * o + e; }
  void fillIn(Tensor& x, int o) { for (int e = 0; e < 4; ++e) x.ptr<float>()[e] = val(o, e); }
  void apply(const vf::Act& a) {
    int i = a.a[0];
    auto put = [&](int j, Ref q, int vw) { r[j] = q; view[j] = vw; };
    if (a.op == "new") { int o = objs++; t[i] = Tensor::empty({4}, kFloat32, kCPU).alloc(); fillIn(t[i], o); put(i, {o, iota4()}, views++); }
    else if (a.op == "drop") { t[i] = Tensor::nil(); put(i, {}, -1); }
    else if (a.op == "delete") { t[i].delete_(); if (!t[i].isNil()) fail("not-nil", "a deleted tensor is not nil"); put(i, {}, -1); }
    else if (a.op == "operator-delete") { auto* p = new Tensor(t[i]); Tensor q(*p); delete p; }
    else if (a.op == "attach") { int o = objs++; t[i].allocExtraTensorView("x", {4}); auto x = t[i].getExtraTensorViewInTensor("x"); x.alloc(); fillIn(x, o); attached[view[i]] = o; }
    else if (a.op == "get") { int j = a.a[1]; int o = attached[view[i]]; Tensor x = t[i].getExtraTensorViewInTensor("x"); t[j] = x; x = Tensor::nil(); put(j, {o, iota4()}, -2 - o); }
    else if (a.op == "copy") { int j = a.a[1]; t[j] = t[i]; put(j, r[i], view[i]); }
    else if (a.op == "move") { int j = a.a[1]; if (i == j) return; t[j] = std::move(t[i]); put(j, r[i], view[i]); put(i, {}, -1); }
    else if (a.op == "view") { int j = a.a[1]; int k = r[i].el.size(); auto q = r[i]; t[j] = t[i].view({k, 1}).view({k}); put(j, q, views++); }
    else if (a.op == "slice") {
      int j = a.a[1]; int k = r[i].el.size(), lo = a.a[2] ? k / 2 : 0, hi = a.a[2] ? k : (k + 1) / 2; Ref q{r[i].obj, {r[i].el.begin() + lo, r[i].el.begin() + hi}};
      t[j] = t[i][SliceIndices{SliceIndicesPair(lo, hi)}]; put(j, q, views++);
    } else fail("action", a.op);
  }
  void check() {
    long want = alive(), have = Context::instance().memoryManager()->live - live0;
    if (want != have) fail(have > want ? "storage-leaked" : "storage-freed-early", cat(want, " storages are owned, ", have, " are allocated"));
    for (int i = 0; i < n; ++i) {
      if (t[i].isNil() != (r[i].obj < 0)) fail("nil", cat("tensor ", i, r[i].obj < 0 ? " should be nil" : " should not be nil"));
      if (r[i].obj < 0) continue;
      if (t[i].numel() != r[i].el.size()) fail("shape", cat("tensor ", i, " has ", t[i].numel(), " elements instead of ", r[i].el.size()));
      for (size_t e = 0; e < r[i].el.size(); ++e) { float v = t[i].ptr<float>()[e]; if (v != val(r[i].obj, r[i].el[e])) fail("bytes", cat("element ", e, " of tensor ", i, " is ", v, " instead of ", val(r[i].obj, r[i].el[e]))); }
    }
  }
  std::string fingerprint() {
    std::map<int, int> ro, rv; std::string s;
    auto ren = [](std::map<int, int>& m, int k) { if (!m.count(k)) { int x = m.size(); m[k] = x; } return m[k]; };
    for (int i = 0; i < n; ++i) {
      if (r[i].obj < 0) { s += "-;"; continue; }
      s += cat(ren(ro, r[i].obj), vf::seq(r[i].el), "v", ren(rv, view[i]));
      for (auto it = attached.find(view[i]); it != attached.end(); it = attached.find(-2 - it->second)) s += cat("x", ren(ro, it->second));
      s += ";";
    }
    return s;
  }
};

// ---------------------------------------------------------------- weak owners: follow what they were given
static void weak(vf::Stats& st) {
  vf::Cases C{st};
  auto s1 = std::make_shared<Derived>(), s2 = std::make_shared<Derived>();
  std::shared_ptr<Derived> src[3] = {nullptr, s1, s2};
  for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int op = 0; op < 8; ++op) C.one("weak", cat("from=", a, " to=", b, " op=", op), [&] {
    WeakOwner<Base> w(src[a]); WeakOwner<Derived> z(src[b]); long c1 = s1.use_count(), c2 = s2.use_count(); Base* want = src[b].get();
    switch (op) {
      case 0: w = src[b]; break;
      case 1: { auto t = src[b]; w = std::move(t); break; }
      case 2: w = WeakOwner<Base>(z); break;
      case 3: { WeakOwner<Base> t(src[b]); w = t; break; }
      case 4: { WeakOwner<Base> t(src[b]); w = std::move(t); break; }
      case 5: w = nullptr; want = nullptr; break;
      case 6: w.reset(); want = nullptr; break;
      case 7: want = src[a].get(); break;
    }
    if (w.get_weak() != want || (bool)w != (want != nullptr) || w.expired() != (want == nullptr) || (w == nullptr) != (want == nullptr)) fail("weak", "a weak owner refers to something else than it was given");
    if (want && (w.operator->() != want || &*w != want)) fail("weak", "dereferencing gives something else");
    for (int k = 0; k < 3; ++k) if ((w == src[k]) != (want == src[k].get())) fail("weak-compare", "comparison with a shared pointer is wrong");
    if (op != 1 && (s1.use_count() != c1 || s2.use_count() != c2)) fail("weak-owns", "a weak owner owns");
  });
}

void vf_job(const std::string& name, const std::map<std::string, long>& o, vf::Stats& st) {
  auto g = [&](const char* k, long d) { auto it = o.find(k); return it == o.end() ? d : it->second; };
  auto& c = Context::instance(); c.reg<cpu::CPUViewOpFactory>(); c.reg<cpu::CPUSliceOpFactory>();
  if (name == "weak") return weak(st);
  if (name.rfind("handles", 0) == 0) vf::explore<Handles>(Handles::Cfg{(int)g("nb", 2), (int)g("nd", 1), (int)g("objs", 2)}, g("depth", 4), st);
  else vf::explore<Tensors>(Tensors::Cfg{(int)g("n", 2), (int)g("limit", 2)}, g("depth", 4), st);
}
