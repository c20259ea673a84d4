// C11: views, slices and their materialisations show exactly the elements they denote.
#define VF_MAIN
#include "vf.hpp"
#include <algorithm>
#include <numeric>
#include "mllm/backends/cpu/ops/CloneOp.hpp"
#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
#include "mllm/backends/cpu/ops/CopyOp.hpp"
#include "mllm/backends/cpu/ops/PermuteOp.hpp"
#include "mllm/backends/cpu/ops/RepeatOp.hpp"
#include "mllm/backends/cpu/ops/SliceOp.hpp"
#include "mllm/backends/cpu/ops/TransposeOp.hpp"
#include "mllm/backends/cpu/ops/ViewOp.hpp"
#include "mllm/core/SlicePrimitives.hpp"
#include "mllm/core/Tensor.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/utils/Log.hpp"
mllm::LogLevel mllm::Logger::level_ = (mllm::LogLevel)9;
using namespace mllm;
using Opt = std::map<std::string, long>;
using I = std::vector<int32_t>;

extern "C" void __real_exit(int);
extern "C" void __wrap_exit(int c) { if (vf::refuse_to) longjmp(*vf::refuse_to, 1); __real_exit(c); }

static long prod(const I& s) { long n = 1; for (auto x : s) n *= x; return n; }
static uint8_t byte(long label, size_t b) { return b == 0 ? uint8_t(label + 1) : uint8_t(label * 37 + b * 11 + 5); }
static I unravel(long i, const I& s) { I r(s.size()); for (int d = (int)s.size() - 1; d >= 0; --d) { r[d] = i % s[d]; i /= s[d]; } return r; }
static long ravel(const I& x, const I& s) { long r = 0; for (size_t d = 0; d < s.size(); ++d) r = r * s[d] + x[d]; return r; }

// The reference: a view is a storage, a shape and the storage position of every element, in row-major order.
struct V { Tensor t = Tensor::nil(); int sid; I shape; std::vector<long> pos; };
struct Ref { std::vector<std::vector<long>> st; };

static void shows(V& v, const Ref& r, DataTypes dt, const std::string& what) {
  size_t w = bytesOfType(dt);
  if (v.t.isNil()) vf::fail("nil", what + " is nil");
  if (v.t.shape() != v.shape) vf::fail("shape", vf::cat(what, " has shape ", vf::seq(v.t.shape()), " instead of ", vf::seq(v.shape)));
  if (v.t.dtype() != dt) vf::fail("dtype", what + " has another element type");
  if ((long)v.t.numel() != prod(v.shape)) vf::fail("numel", what + " counts its elements wrongly");
  for (int d = -(int)v.shape.size(); d < (int)v.shape.size(); ++d) if (v.t.size(d) != v.shape[d < 0 ? d + (int)v.shape.size() : d]) vf::fail("size", what + " reports a wrong extent");
  long n = prod(v.shape); std::vector<uint8_t> lin;
  for (long i = 0; i < n; ++i) {
    auto* p = v.t.offsettedPtr<uint8_t>(unravel(i, v.shape));
    for (size_t b = 0; b < w; ++b) {
      if (p[b] != byte(r.st[v.sid][v.pos[i]], b)) vf::fail("element", vf::cat(what, ": element ", vf::seq(unravel(i, v.shape)), " of ", vf::seq(v.shape), " is not the one it denotes"));
    }
  }
  if (n == 0) return;
  // wherever the tensor says it is contiguous, plain memory order must be element order
  for (int k = 0; k <= (int)v.shape.size(); ++k) {
    bool claim = k == (int)v.shape.size() ? v.t.isContiguous() : v.t.isContiguousN(k);
    if (!claim || k == 0) continue;
    long blk = 1; for (int d = (int)v.shape.size() - k; d < (int)v.shape.size(); ++d) blk *= v.shape[d];
    for (long i = 0; i < n; ++i) {
      auto* p = v.t.offsettedPtr<uint8_t>(unravel(i - i % blk, v.shape)) + (i % blk) * w;
      if (p != v.t.offsettedPtr<uint8_t>(unravel(i, v.shape))) vf::fail("contiguity", vf::cat(what, " claims its last ", k, " dimensions are contiguous and they are not"));
    }
  }
  if (v.t.isContiguous() && v.t.ptr<uint8_t>() != v.t.offsettedPtr<uint8_t>(I(v.shape.size(), 0))) vf::fail("base", what + ": its pointer is not its first element");
}
static void put(Tensor t, const I& idx, DataTypes dt, long label) { auto* p = t.offsettedPtr<uint8_t>(idx); for (size_t b = 0; b < bytesOfType(dt); ++b) p[b] = byte(label, b); }

static V make(Ref& r, const I& shape, DataTypes dt, long first) {
  V v; v.t = Tensor::empty(shape, dt, kCPU).alloc(); v.sid = r.st.size(); v.shape = shape; r.st.emplace_back(prod(shape));
  for (long i = 0; i < prod(shape); ++i) { v.pos.push_back(i); r.st[v.sid][i] = (first + i) % 250; put(v.t, unravel(i, shape), dt, r.st[v.sid][i]); }
  return v;
}

// One dimension of a slice: 0 = denotes `pick`, 1 = reaches beyond the dimension (may be refused, or clamped to `pick`), 2 = meaningless (must be refused)
static int meaning(const SliceIndicesPair& p, int n, std::vector<int>& pick) {
  pick.clear();
  if (p.step_ < 1) return 2;
  long s = p.start_ == kAll ? 0 : p.start_, e = p.end_ == kAll ? n : p.end_;
  bool out = s < -n || s > n || e < -n || e > n;
  if (s == -1 && e == 0) { e = n; s = n - 1; if (n == 0) out = true; }       // index -1
  if (s < 0) s += n;
  if (e < 0) e += n;
  s = std::clamp<long>(s, 0, n); e = std::clamp<long>(e, 0, n);
  for (long i = s; i < e; i += p.step_) pick.push_back(i);
  return out;
}

struct Cfg { I shape; DataTypes dt; bool tr, rep; long maxnumel, full; };
struct H {
  const Cfg& c; Ref r; std::vector<V> vs; long next = 0;
  explicit H(const Cfg& c) : c(c) { vs.push_back(make(r, c.shape, c.dt, 0)); next = prod(c.shape); }
  V& cur() { return vs.back(); }
  std::vector<vf::Act> actions() {
    std::vector<vf::Act> a; auto& s = cur().shape; int n = s.size();
    for (int d = 0; d < n; ++d) {
      std::vector<long> b{kAll}; bool full = (long)vs.size() <= c.full;      // every bound for the first steps, then the telling ones
      if (full) for (int x = -s[d] - 1; x <= s[d] + 1; ++x) b.push_back(x); else b = {kAll, 1, -1, s[d], s[d] + 1};
      for (auto x : b) for (auto y : b) for (long st = 1; st <= (full && s[d] > 2 ? 3 : 2); ++st) a.push_back({"slice", {d, x, y, st}});
      for (long x = -s[d] - 1; x <= s[d]; ++x) a.push_back({"index", {d, x}});
      a.push_back({"slice", {d, 0, s[d], 0}}); a.push_back({"slice", {d, s[d], 0, -1}});
    }
    long N = prod(s);
    std::set<I> shapes;
    auto grow = [&](auto&& self, I p, long left, int rank) -> void {
      if (!p.empty() && left == 1) { shapes.insert(p); for (size_t i = 0; i < p.size(); ++i) { auto q = p; q[i] = -1; shapes.insert(q); } }
      if (rank == 0) return;
      for (long f = 1; f <= left; ++f) if (left % f == 0) { auto q = p; q.push_back(f); self(self, q, left / f, rank - 1); }
    };
    if (N) grow(grow, {}, N, 3);
    shapes.insert({(int)N + 1}); shapes.insert({-1, -1}); shapes.insert({0}); shapes.insert({0, 3}); shapes.insert({-2}); shapes.insert({(int)N, 2}); shapes.insert({2, -1}); shapes.insert({3, -1});
    if (N == 1) shapes.insert(I{});
    for (auto& x : shapes) a.push_back({"view", {x.begin(), x.end()}});
    for (long d = -n - 1; d <= n; ++d) a.push_back({"squeeze", {d}});
    a.push_back({"squeeze", {0x7fffffff}}); a.push_back({"flatten", {0x7fffffff}});
    for (long d = -n - 2; d <= n + 1; ++d) a.push_back({"unsqueeze", {d}});
    for (long d = -n - 1; d <= n; ++d) a.push_back({"flatten", {d}});
    a.push_back({"contiguous", {}}); a.push_back({"clone", {}}); a.push_back({"write", {}});
    if (c.tr && n) for (long x = -n; x <= n; ++x) for (long y = -n; y <= n; ++y) if (x <= y) a.push_back({"transpose", {x, y}});
    if (c.tr && n > 1) a.push_back({"T", {}});
    if (n) { std::vector<long> p(n); std::iota(p.begin(), p.end(), 0); do a.push_back({"permute", p}); while (std::next_permutation(p.begin(), p.end())); }
    if (n) { std::vector<long> p(n); std::iota(p.begin(), p.end(), 0); auto q = p; q[0] = n - 1; if (n > 1) a.push_back({"permute", q}); q = p; q[0] = n; a.push_back({"permute", q}); q = p; q.push_back(n); a.push_back({"permute", q}); q = p; q.pop_back(); a.push_back({"permute", q}); }
    if (c.rep) for (long d = -n - 1; d <= n; ++d) for (long m = 0; m <= 3; ++m) if (N * m <= c.maxnumel) a.push_back({"repeat", {d, m}});
    a.push_back({"copy-flat", {0}}); a.push_back({"copy-flat", {1}}); a.push_back({"copy-flat", {-1}});
    for (int d = 0; d < n; ++d) { a.push_back({"copy-part", {d, 1}}); a.push_back({"copy-part", {d, 2}}); }
    return a;
  }
  void fresh(const Tensor& t, const I& shape, const std::vector<long>& labels) {
    V v; v.t = t; v.sid = r.st.size(); v.shape = shape; r.st.push_back(labels); for (size_t i = 0; i < labels.size(); ++i) v.pos.push_back(i);
    vs.push_back(v);
  }
  void alias(const Tensor& t, const I& shape, const std::vector<long>& pos) { V v; v.t = t; v.sid = cur().sid; v.shape = shape; v.pos = pos; vs.push_back(v); }
  std::vector<long> labels() { std::vector<long> l; for (auto p : cur().pos) l.push_back(r.st[cur().sid][p]); return l; }
  void apply(const vf::Act& a) {
    auto& v = cur(); auto& s = v.shape; int n = s.size(); long N = prod(s);
    Tensor o = Tensor::nil();
    auto run = [&](auto f) { return vf::accepted([&] { o = f(); }); };
    auto must = [&](bool ok, bool want, bool wont, const std::string& w) {
      if (want && !ok) vf::fail("refused:" + a.op, w + " was refused");
      if (wont && ok) vf::fail("accepted:" + a.op, w + " was accepted");
    };
    if (a.op == "slice" || a.op == "index") {
      SliceIndices ix(n); int d = a.a[0];
      ix[d] = a.op == "index" ? SliceIndicesPair((int32_t)a.a[1]) : SliceIndicesPair((int32_t)a.a[1], (int32_t)a.a[2], (int32_t)a.a[3]);
      std::vector<int> pick; int m;
      if (a.op == "index") {      // an index out of range denotes nothing: refusing or an empty result
        long i = a.a[1] < 0 ? a.a[1] + s[d] : a.a[1]; m = i < 0 || i >= s[d]; if (!m) pick = {(int)i};
      } else m = meaning(ix[d], s[d], pick);
      bool ok = run([&] { return v.t[ix]; });
      must(ok, m == 0, m == 2, "slicing " + vf::seq(s));
      if (!ok) return;
      auto ns = s; ns[d] = pick.size(); std::vector<long> pos;
      for (long i = 0; i < prod(ns); ++i) { auto x = unravel(i, ns); x[d] = pick[x[d]]; pos.push_back(v.pos[ravel(x, s)]); }
      alias(o, ns, pos);
    } else if (a.op == "view") {
      I to(a.a.begin(), a.a.end()); long known = 1; int minus = 0; bool bad = false;
      for (auto x : to) if (x == -1) minus++; else if (x < 0) bad = true; else known *= x;
      I want = to;
      if (minus > 1) bad = true;
      else if (minus == 1) { if (known == 0 || N % known) bad = true; else for (auto& x : want) if (x == -1) x = N / known; }
      if (!bad && prod(want) != N) bad = true;
      bool ok = run([&] { return v.t.view(to); });
      must(ok, !bad && v.t.isContiguous() && N, bad, vf::cat("viewing ", vf::seq(s), " as ", vf::seq(to)));
      if (ok) alias(o, want, v.pos);
    } else if (a.op == "squeeze") {
      long d = a.a[0]; I want;
      if (d == 0x7fffffff) { for (auto x : s) if (x != 1) want.push_back(x); if (want.empty() && n) want = {1}; }
      else { long e = d < 0 ? d + n : d; for (int i = 0; i < n; ++i) if (!(i == e && s[i] == 1)) want.push_back(s[i]); }
      bool ok = run([&] { return v.t.squeeze(d); });
      must(ok, v.t.isContiguous() && N, false, "squeezing " + vf::seq(s));
      if (ok) alias(o, want, v.pos);
    } else if (a.op == "unsqueeze") {
      long e = a.a[0] < 0 ? a.a[0] + n + 1 : a.a[0]; bool bad = e < 0 || e > n;
      bool ok = run([&] { return v.t.unsqueeze(a.a[0]); });
      must(ok, !bad && v.t.isContiguous() && N, bad, "unsqueezing " + vf::seq(s));
      if (ok) { auto w = s; w.insert(w.begin() + e, 1); alias(o, w, v.pos); }
    } else if (a.op == "flatten") {
      long d = a.a[0]; bool whole = d == 0x7fffffff, bad = !whole && n && (d < -n || d >= n);
      bool ok = run([&] { return v.t.flatten(d); });
      must(ok, !bad && v.t.isContiguous() && N, bad, "flattening " + vf::seq(s));
      if (ok) { I w; if (whole || n == 0) w = {(int)N}; else { long e = d < 0 ? d + n : d; w.assign(s.begin(), s.begin() + e); w.push_back(prod(I(s.begin() + e, s.end()))); } alias(o, w, v.pos); }
    } else if (a.op == "contiguous" || a.op == "clone") {
      bool cl = a.op == "clone", ok = run([&] { return cl ? v.t.clone() : v.t.contiguous(); });
      must(ok, !cl || v.t.isContiguous(), false, a.op + " of " + vf::seq(s));
      if (!ok) return;
      if (!o.isContiguous()) vf::fail("not-contiguous", "the result of " + a.op + " is not contiguous");
      fresh(o, s, labels());
    } else if (a.op == "write") {
      for (long i = 0; i < N; ++i) { long l = next++ % 250; r.st[v.sid][v.pos[i]] = l; put(v.t, unravel(i, s), c.dt, l); }
    } else if (a.op == "transpose" || a.op == "T" || a.op == "permute") {
      std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); bool bad = false;
      if (a.op == "permute") { std::vector<long> q = a.a; std::sort(q.begin(), q.end()); bad = (int)q.size() != n; for (int i = 0; !bad && i < n; ++i) bad = q[i] != i; if (!bad) p.assign(a.a.begin(), a.a.end()); }
      else {
        long x = a.op == "T" ? -1 : a.a[0], y = a.op == "T" ? -2 : a.a[1];
        if (x < 0) x += n; if (y < 0) y += n;
        bad = x >= n || y >= n; if (!bad) std::swap(p[x], p[y]);
      }
      bool ok = run([&] { return a.op == "T" ? v.t.T() : a.op == "permute" ? v.t.permute(I(a.a.begin(), a.a.end())) : v.t.transpose(a.a[0], a.a[1]); });
      must(ok, !bad, bad, a.op + " of " + vf::seq(s));
      if (!ok) return;
      auto l = labels(); I w(n); for (int i = 0; i < n; ++i) w[i] = s[p[i]];
      std::vector<long> nl; for (long i = 0; i < N; ++i) { auto x = unravel(i, w); I y(n); for (int k = 0; k < n; ++k) y[p[k]] = x[k]; nl.push_back(l[ravel(y, s)]); }
      fresh(o, w, nl);
    } else if (a.op == "repeat") {
      long e = a.a[0] < 0 ? a.a[0] + n : a.a[0], m = a.a[1]; bool bad = e < 0 || e >= n;
      bool ok = run([&] { return v.t.repeat(m, a.a[0]); });
      if (m == 1) { must(ok, !bad, false, "repeating"); if (ok) alias(o, s, v.pos); return; }     // nothing to repeat
      must(ok, !bad, bad, "repeating " + vf::seq(s));
      if (!ok) return;
      auto l = labels(); auto w = s; w[e] *= m;
      std::vector<long> nl; for (long i = 0; i < prod(w); ++i) { auto x = unravel(i, w); x[e] /= m; nl.push_back(l[ravel(x, s)]); }
      fresh(o, w, nl);
    } else if (a.op == "copy-flat") {
      if (N + a.a[0] <= 0) return;
      auto l = labels(); V dst = make(r, {(int)(N + a.a[0])}, c.dt, 0);
      bool ok = vf::accepted([&] { v.t.copy2(dst.t); });
      must(ok, a.a[0] == 0, a.a[0] != 0, "copying to a tensor of another size");
      if (ok) { r.st[dst.sid] = l; } vs.push_back(dst);
    } else if (a.op == "copy-part") {
      int d = a.a[0], step = a.a[1]; auto big = s; big[d] = s[d] * step + 2; auto l = labels();
      if (prod(big) > c.maxnumel) return;
      V whole = make(r, big, c.dt, 100); SliceIndices ix(n); ix[d] = {1, 1 + s[d] * step, step};
      V part; part.t = whole.t[ix]; part.sid = whole.sid; part.shape = s;
      for (long i = 0; i < N; ++i) { auto x = unravel(i, s); x[d] = 1 + x[d] * step; part.pos.push_back(ravel(x, big)); }
      if (!vf::accepted([&] { v.t.copy2(part.t); })) vf::fail("refused:copy", "copying to a part of a tensor was refused");
      for (long i = 0; i < N; ++i) r.st[whole.sid][part.pos[i]] = l[i];
      vs.push_back(whole); vs.push_back(part);
    }
  }
  void check() { for (size_t i = 0; i < vs.size(); ++i) shows(vs[i], r, c.dt, i + 1 == vs.size() ? "the derived tensor" : "a tensor it was derived from"); }
  std::string fingerprint() {
    auto& v = cur(); if (prod(v.shape) > c.maxnumel) return "big";
    return vf::cat(vf::seq(v.shape), vf::seq(v.t.stride()), v.t.impl()->storageOffset(), ',', r.st[v.sid].size());
  }
};

// every combination of per-dimension slices in one expression
static void slices(const I& shape, DataTypes dt, vf::Stats& st) {
  vf::Cases C{st}; Ref r; V base = make(r, shape, dt, 0); int n = shape.size();
  std::vector<std::vector<SliceIndicesPair>> pal(n);
  for (int d = 0; d < n; ++d) {
    int e = shape[d]; auto& p = pal[d];
    p.push_back(SliceIndicesPair());
    for (int i = -e; i < e; ++i) p.push_back(SliceIndicesPair(i));
    for (int s = 0; s < e; ++s) for (int t = s + 2; t <= e; ++t) for (int k = 1; k <= 2; ++k) p.push_back(SliceIndicesPair(s, t, k));
    p.push_back(SliceIndicesPair(kAll, -1)); p.push_back(SliceIndicesPair(1, kAll)); p.push_back(SliceIndicesPair(-2, kAll)); p.push_back(SliceIndicesPair(kAll, kAll, 2));
    p.push_back(SliceIndicesPair(e, e)); p.push_back(SliceIndicesPair(0, e + 1)); p.push_back(SliceIndicesPair(e, e + 1)); p.push_back(SliceIndicesPair(-e - 1, kAll));
  }
  std::vector<size_t> k(n, 0);
  while (true) {
    SliceIndices ix; std::string what = vf::cat("slice of ", vf::seq(shape), ":"); for (int d = 0; d < n; ++d) { ix.push_back(pal[d][k[d]]); what += vf::cat(' ', ix[d].start_, ':', ix[d].end_, ':', ix[d].step_); }
    if (!C.one("slice", what, [&] {
      int worst = 0; std::vector<std::vector<int>> pick(n); V v; v.sid = base.sid;
      for (int d = 0; d < n; ++d) { worst = std::max(worst, meaning(ix[d], shape[d], pick[d])); v.shape.push_back(pick[d].size()); }
      bool ok = vf::accepted([&] { v.t = base.t[ix]; });
      if (!ok && worst == 0) vf::fail("refused:slice", "refused");
      if (!ok) return;
      for (long i = 0; i < prod(v.shape); ++i) { auto x = unravel(i, v.shape); for (int d = 0; d < n; ++d) x[d] = pick[d][x[d]]; v.pos.push_back(ravel(x, shape)); }
      shows(v, r, dt, "the slice");
      V w = v; if (!vf::accepted([&] { w.t = v.t.contiguous(); })) vf::fail("refused:contiguous", "materialising was refused");
      w.sid = r.st.size(); r.st.emplace_back(); for (size_t i = 0; i < v.pos.size(); ++i) { r.st[w.sid].push_back(r.st[v.sid][v.pos[i]]); w.pos[i] = i; }
      shows(w, r, dt, "the materialised slice"); r.st.pop_back();
    }) && st.viol.size() >= 6) return;
    int d = n - 1; while (d >= 0 && ++k[d] == pal[d].size()) k[d--] = 0;
    if (d < 0) break;
  }
}

// every transposition and permutation of shapes large enough for the vector kernels
static void turns(long rank, long part, long parts, DataTypes dt, bool tr, vf::Stats& st) {
  vf::Cases C{st}; std::vector<I> shapes;
  auto grow = [&](auto&& self, I p, const std::vector<std::vector<int>>& ext) -> void {
    if (p.size() == ext.size()) { shapes.push_back(p); return; }
    for (int e : ext[p.size()]) { auto q = p; q.push_back(e); self(self, q, ext); }
  };
  if (rank == 1) grow(grow, {}, {{1, 2, 5, 9}});
  if (rank == 2) grow(grow, {}, {{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13}});
  if (rank == 3) grow(grow, {}, {{1, 2, 3, 5}, {1, 2, 3, 4, 5, 8, 9}, {1, 2, 3, 4, 5, 8, 9}});
  if (rank == 4) grow(grow, {}, {{1, 2, 3}, {1, 2, 4, 5}, {1, 2, 5}, {1, 3, 4, 6, 9}});
  if (rank == 5) grow(grow, {}, {{1, 2}, {1, 3}, {1, 2}, {2, 5}, {1, 4, 5}});
  for (size_t k = part; k < shapes.size(); k += parts) {
    auto& s = shapes[k]; int n = s.size();
    Ref r; V base = make(r, s, dt, 0); long N = prod(s);
    for (long i = 0; i < N; ++i) { r.st[0][i] = i; auto* p = base.t.offsettedPtr<uint8_t>(unravel(i, s)); for (size_t b = 0; b < bytesOfType(dt); ++b) p[b] = uint8_t((i >> (8 * b)) + (b > 1 ? i : 0)); }
    auto verify = [&](const std::string& op, const std::vector<int>& p, auto f) {
      C.one(op, vf::cat(op, ' ', vf::seq(s), " by ", vf::seq(p)), [&] {
        Tensor o = Tensor::nil();
        if (!vf::accepted([&] { o = f(); })) vf::fail("refused:" + op, "refused");
        I w(n); for (int i = 0; i < n; ++i) w[i] = s[p[i]];
        if (o.shape() != w) vf::fail("shape", vf::cat("shape ", vf::seq(o.shape())));
        for (long i = 0; i < N; ++i) {
          auto x = unravel(i, w); I y(n); for (int q = 0; q < n; ++q) y[p[q]] = x[q];
          if (memcmp(o.offsettedPtr<uint8_t>(x), base.t.offsettedPtr<uint8_t>(y), bytesOfType(dt))) vf::fail("element", vf::cat("element ", vf::seq(x), " is wrong"));
        }
      });
    };
    std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
    do { auto q = p; verify("permute", q, [&] { return base.t.permute(I(q.begin(), q.end())); }); } while (std::next_permutation(p.begin(), p.end()));
    if (tr) for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) for (int neg = 0; neg < 4; ++neg) {
      std::vector<int> q(n); std::iota(q.begin(), q.end(), 0); std::swap(q[x], q[y]);
      verify("transpose", q, [&] { return base.t.transpose(neg & 1 ? x - n : x, neg & 2 ? y - n : y); });
    }
  }
}

void vf_job(const std::string& name, const Opt& o, vf::Stats& st) {
  auto& X = Context::instance();
  X.reg<cpu::CPUSliceOpFactory>(); X.reg<cpu::CPUViewOpFactory>(); X.reg<cpu::CPUTransposeOpFactory>(); X.reg<cpu::CPUPermuteOpFactory>();
  X.reg<cpu::CPUContiguousOpFactory>(); X.reg<cpu::CPUCloneOpFactory>(); X.reg<cpu::CPURepeatOpFactory>(); X.reg<cpu::CPUCopyOpFactory>();
  auto g = [&](const char* k, long d) { return o.count(k) ? o.at(k) : d; };
  auto dt = (DataTypes)g("dt", 0); I shape; for (long s = g("shape", 23); s; s /= 10) shape.insert(shape.begin(), s % 10);
  if (g("kind", 0) == 0) { Cfg c{shape, dt, dt == kFloat32 || dt == kInt64, dt == kFloat32 || dt == kFloat16, g("numel", 24), g("full", 1)}; vf::explore<H>(c, g("depth", 2), st); }
  else if (g("kind", 0) == 1) slices(shape, dt, st);
  else turns(g("rank", 2), g("part", 0), g("parts", 1), dt, dt == kFloat32 || dt == kInt64, st);
}
