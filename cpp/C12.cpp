// C12: every operator that rearranges data computes its definition for every small shape, axis, parameter and layout.
#define VF_MAIN
#include "ops.hpp"
#include "mllm/backends/cpu/ops/ArgsortOp.hpp"
#include "mllm/backends/cpu/ops/CloneOp.hpp"
#include "mllm/backends/cpu/ops/ConcatOp.hpp"
#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
#include "mllm/backends/cpu/ops/CopyOp.hpp"
#include "mllm/backends/cpu/ops/EmbeddingOp.hpp"
#include "mllm/backends/cpu/ops/GatherOp.hpp"
#include "mllm/backends/cpu/ops/IndexOp.hpp"
#include "mllm/backends/cpu/ops/MaskedScatterOp.hpp"
#include "mllm/backends/cpu/ops/PadOp.hpp"
#include "mllm/backends/cpu/ops/RepeatOp.hpp"
#include "mllm/backends/cpu/ops/Scatter2ShardsOp.hpp"
#include "mllm/backends/cpu/ops/SliceOp.hpp"
#include "mllm/backends/cpu/ops/SplitOp.hpp"
#include "mllm/backends/cpu/ops/StackOp.hpp"
#include "mllm/backends/cpu/ops/TopKOp.hpp"
// ------------------------------------------------------------------------------------------------ concat and stack
static void join(Run& R, DataTypes dt, int ext, bool stack) {
  auto t = stack ? OpTypes::kStack : OpTypes::kConcat; std::string g = stack ? "stack" : "concat";
  for (auto& s : shapes(1, 4, ext, true)) for (int d = -(int)s.size() - 2; d <= (int)s.size() + 1; ++d) for (int cnt = 1; cnt <= 3; ++cnt) {
    int n = s.size(), top = stack ? n + 1 : n, e = d < 0 ? d + top : d; bool bad = e < 0 || e >= top;
    if (bad && cnt > 1) continue;
    // for concat, the extents of the parts along the axis differ; a part may be empty
    for (int ex = 0; ex < (stack || bad || cnt == 1 ? 1 : cnt == 2 ? 4 : 3); ++ex) for (int l = 0; l < (cnt == 1 ? 4 : cnt == 2 ? 16 : 4); ++l) {
      std::vector<I> ss; std::vector<int> ls;
      for (int k = 0; k < cnt; ++k) { auto q = s; if (!stack && !bad && k) q[e] = k == 1 ? ex : (ex + 1) % 3; ss.push_back(q); ls.push_back(cnt == 2 ? (k ? l / 4 : l % 4) : cnt == 1 ? l : (l + k) % 4); }
      R.one(g, vf::cat(g, " of ", cnt, " of ", vf::seq(s), " along ", d, " extents ", ex, lay(ls)), [&] {
        std::vector<In> in; std::vector<Tensor> ts; long first = 1;
        for (int k = 0; k < cnt; ++k) { in.emplace_back(ss[k], dt, labels(ss[k], first), ls[k]); first += prod(ss[k]); ts.push_back(in.back().t); }
        bool ok = stack ? R.op(t, aops::StackOpOptions{.dim = d}, ts) : R.op(t, aops::ConcatOpOptions{.dim = d}, ts);
        Run::must(ok, !bad, bad);
        for (auto& x : in) x.untouched();
        if (!ok) return;
        I o = s; if (stack) o.insert(o.begin() + e, cnt); else { o[e] = 0; for (auto& q : ss) o[e] += q[e]; }
        D v; for (long i = 0; i < prod(o); ++i) {
          auto x = unravel(i, o); int k = 0;
          if (stack) { k = x[e]; x.erase(x.begin() + e); } else while (x[e] >= ss[k][e]) x[e] -= ss[k++][e];
          v.push_back(in[k].v[ravel(x, ss[k])]);
        }
        expect(R.out[0], dt, o, v);
      });
      if (R.full()) return;
    }
  }
  // parts that do not fit together
  auto off = dt == kFloat32 ? kFloat16 : kFloat32;
  for (auto& a : shapes(1, 3, 2, false)) for (auto& b : shapes(1, 3, 2, false)) for (int d = 0; d < (int)a.size(); ++d) for (int kind = 0; kind < 2; ++kind) {
    auto a2 = a, b2 = b; if (!stack && a.size() == b.size()) a2[d] = b2[d] = 0;
    if (!kind && a2 == b2 && a.size() == b.size()) continue;
    R.one(g + "-mismatch", vf::cat(g, " of ", vf::seq(a), " and ", vf::seq(b), " along ", d, kind ? " of different types" : ""), [&] {
      In x(a, dt, labels(a)), y(b, kind ? off : dt, labels(b)); std::vector<Tensor> ts{x.t, y.t};
      bool ok = stack ? R.op(t, aops::StackOpOptions{.dim = d}, ts) : R.op(t, aops::ConcatOpOptions{.dim = d}, ts);
      Run::must(ok, false, true);
    });
  }
}

// ------------------------------------------------------------------------------------------------ split
static void split(Run& R, DataTypes dt, int ext) {
  for (auto& s : shapes(1, 4, ext, false)) for (int l = 0; l < 4; ++l) for (int d = -(int)s.size() - 1; d <= (int)s.size(); ++d) {
    int n = s.size(), e = d < 0 ? d + n : d; bool out = e < 0 || e >= n; int len = out ? 2 : s[e];
    std::vector<I> parts;
    for (int k = -1; k <= len + 1; ++k) parts.push_back({k});
    for (int a = -1; a <= len + 1; ++a) for (int b = -1; b <= len + 1; ++b) { parts.push_back({a, b}); if (a >= 0 && b >= 0) for (int c = -1; c <= len; ++c) parts.push_back({a, b, c}); }
    for (auto& p : parts) {
      R.one("split", vf::cat("split of ", vf::seq(s), " along ", d, " by ", vf::seq(p), lay({l})), [&] {
        In in(s, dt, labels(s), l); I sec; bool bad = out;
        if (!bad) {
          if (p.size() == 1) { bad = p[0] <= 0 || len % p[0]; if (!bad) sec.assign(len / p[0], p[0]); }
          else { sec = p; int sum = 0; for (int x : p) { bad |= x < 0; sum += x; } bad |= sum != len; }
        }
        bool ok = R.op(OpTypes::kSplit, aops::SplitOpOptions{.dim = d, .split_size_or_sections = p}, {in.t});
        Run::must(ok, !bad, bad);
        if (!ok) return;
        if (R.out.size() != sec.size()) vf::fail("count", vf::cat(R.out.size(), " parts instead of ", sec.size()));
        int at = 0;
        for (size_t k = 0; k < sec.size(); ++k) {
          auto o = s; o[e] = sec[k]; D v;
          for (long i = 0; i < prod(o); ++i) { auto x = unravel(i, o); x[e] += at; v.push_back(in.v[ravel(x, s)]); }
          expect(R.out[k], dt, o, v);
          if (prod(o)) { Tensor c = Tensor::nil(); if (!vf::accepted([&] { c = R.out[k].contiguous(); })) vf::fail("refused", "a part cannot be materialised"); expect(c, dt, o, v); }
          at += sec[k];
        }
        in.untouched();
      });
      if (R.full()) return;
    }
  }
}

// ------------------------------------------------------------------------------------------------ gather
static void gather(Run& R, DataTypes dt, int ext, int rank) {
  std::vector<I> is{{0}, {1}, {2}, {3}, {1, 2}, {2, 1}, {2, 2}};
  for (auto& s : shapes(rank, rank, ext, false)) for (int d = -(int)s.size() - 1; d <= (int)s.size(); ++d) for (auto& ish : is) {
    int n = s.size(), e = d < 0 ? d + n : d; bool out = e < 0 || e >= n; int len = out ? 1 : s[e]; long m = prod(ish);
    if (out && ish != I{1}) continue;
    long combos = 1; for (int k = 0; k < m; ++k) combos *= 2 * len + 2;       // from one below the range to one above
    if (m >= 3 && len >= 3) combos = std::min(combos, 600L);
    for (int l = 0; l < 4; ++l) for (int il = 0; il < 2; ++il) for (int idt = 0; idt < 2; ++idt) {
      if ((l > 1 || il) && idt) continue;
      for (long c = 0; c < combos; ++c) {
        if (l && m > 1 && c % 7) continue;
        D iv; long q = c; bool bad = out; for (int k = 0; k < m; ++k) { double x = q % (2 * len + 2) - len - 1; q /= 2 * len + 2; bad |= x < -len || x >= len; iv.push_back(x); }
        R.one("gather", vf::cat("gather of ", vf::seq(s), " along ", d, " at ", vf::seq(iv), " of shape ", vf::seq(ish), idt ? " (float)" : "", lay({l, il})), [&] {
          In in(s, dt, labels(s), l), ix(ish, idt ? kFloat32 : kInt32, iv, il);
          bool ok = R.op(OpTypes::kGather, aops::GatherOpOptions{.dim = d}, {in.t, ix.t});
          bool lone = prod(s) * m > 0;
          Run::must(ok, !bad && lone, bad && (out || lone));
          in.untouched(); ix.untouched();
          if (!ok) return;
          I o(s.begin(), s.begin() + e); o.insert(o.end(), ish.begin(), ish.end()); o.insert(o.end(), s.begin() + e + 1, s.end()); D v;
          for (long i = 0; i < prod(o); ++i) {
            auto x = unravel(i, o); I y(x.begin(), x.begin() + e), z(x.begin() + e, x.begin() + e + ish.size());
            int at = iv[ravel(z, ish)]; y.push_back(at < 0 ? at + len : at); y.insert(y.end(), x.begin() + e + ish.size(), x.end()); v.push_back(in.v[ravel(y, s)]);
          }
          expect(R.out[0], dt, o, v);
        });
        if (R.full()) return;
      }
    }
  }
}

// ------------------------------------------------------------------------------------------------ pad
static int mirror(int x, int n) { if (n == 1) return 0; while (x < 0 || x >= n) { if (x < 0) x = -x; if (x >= n) x = 2 * (n - 1) - x; } return x; }
static void pad(Run& R, int mode, int ext, int rank, int most) {
  for (auto& s : shapes(rank, rank, ext, true)) for (int pairs = 0; pairs <= rank + 1; ++pairs) {
    int lo = pairs <= 1 ? -most : -1, hi = pairs <= 1 ? most + 1 : pairs == 2 ? 2 : 1; long per = hi - lo + 1, combos = 1;
    for (int k = 0; k < 2 * std::min(pairs, rank); ++k) combos *= per;
    for (long c = 0; c < combos; ++c) for (int l = 0; l < (pairs <= 1 ? 4 : 2); ++l) {
      I p(2 * pairs, 0); long q = c; for (int k = 0; k < 2 * std::min(pairs, rank); ++k) { p[k] = q % per + lo; q /= per; }
      if (l && pairs > 1 && c % 3) continue;
      R.one("pad", vf::cat("pad of ", vf::seq(s), " by ", vf::seq(p), " mode ", mode, lay({l})), [&] {
        In in(s, kFloat32, labels(s), l); I o = s; bool bad = false, odd = pairs > rank;
        I before(rank, 0);
        for (int k = 0; k < std::min(pairs, rank); ++k) { int d = rank - 1 - k; before[d] = p[2 * k]; o[d] += p[2 * k] + p[2 * k + 1]; }
        for (int d = 0; d < rank; ++d) { bad |= o[d] < 0 || (mode && s[d] == 0 && o[d] > 0); if (s[d] == 0 || o[d] <= 0) odd = true; }
        bool ok = R.op(OpTypes::kPad, aops::PadOpOptions{.pad = p, .mode = (aops::PadMode)mode, .value = -7.5f}, {in.t});
        Run::must(ok, !bad && !odd, bad);
        in.untouched();
        if (!ok) return;
        D v; for (long i = 0; i < prod(o); ++i) {
          auto x = unravel(i, o); bool outside = false;
          for (int d = 0; d < rank; ++d) {
            int y = x[d] - before[d], n = s[d];
            if (mode == 0) { if (y < 0 || y >= n) { outside = true; y = 0; } }
            else if (mode == 1) y = mirror(y, n);
            else if (mode == 2) y = std::clamp(y, 0, n - 1);
            else y = ((y % n) + n) % n;
            x[d] = y;
          }
          v.push_back(outside ? -7.5 : in.v[ravel(x, s)]);
        }
        expect(R.out[0], kFloat32, o, v);
      });
      if (R.full()) return;
    }
  }
}

// ------------------------------------------------------------------------------------------------ repeat, clone, copy
static void repeat(Run& R, DataTypes dt, int ext) {
  for (auto& s : shapes(1, 4, ext, true)) for (int l = 0; l < 4; ++l) for (int d = -1; d <= (int)s.size(); ++d) for (int m = -1; m <= 4; ++m) {
    int n = s.size(); bool bad = d < 0 || d >= n || m < 0;
    R.one("repeat", vf::cat("repeat of ", vf::seq(s), ' ', m, " times along ", d, lay({l})), [&] {
      In in(s, dt, labels(s), l);
      bool ok = R.op(OpTypes::kRepeat, aops::RepeatOpOptions{.dim = d, .repeat_times = m}, {in.t});
      Run::must(ok, !bad, bad);
      in.untouched();
      if (!ok) return;
      auto o = s; o[d] *= m; D v; for (long i = 0; i < prod(o); ++i) { auto x = unravel(i, o); x[d] /= m; v.push_back(in.v[ravel(x, s)]); }
      expect(R.out[0], dt, o, v);
    });
    if (R.full()) return;
  }
}
static void copies(Run& R, DataTypes dt, int ext) {
  for (auto& s : shapes(1, 4, ext, true)) for (int l = 0; l < 4; ++l) {
    R.one("clone", vf::cat("clone of ", vf::seq(s), lay({l})), [&] {
      In in(s, dt, labels(s), l);
      bool ok = R.op(OpTypes::kClone, aops::CloneOpOptions{}, {in.t});
      Run::must(ok, in.t.isContiguous(), false);
      if (ok) expect(R.out[0], dt, s, in.v);
      in.untouched();
    });
    for (int l2 = 0; l2 < 4; ++l2) for (auto& s2 : shapes((int)s.size(), (int)s.size(), ext, true)) {
      if (prod(s2) != prod(s) && l2 > 1) continue;
      R.one("copy", vf::cat("copy of ", vf::seq(s), " to ", vf::seq(s2), lay({l, l2})), [&] {
        In in(s, dt, labels(s), l), to(s2, dt, labels(s2, 50), l2);
        bool bad = prod(s) != prod(s2), ok = R.op(OpTypes::kCopy, aops::CopyOpOptions{}, {in.t, to.t});
        Run::must(ok, s == s2, bad);
        in.untouched();
        if (!ok) { to.untouched(); return; }
        expect(to.t, dt, s2, in.v);
        for (long i = 0; i < prod(s2); ++i) set(to.t, unravel(i, s2), to.v[i]);
        to.untouched();       // nothing around the destination changed
      });
      if (R.full()) return;
    }
  }
}

// ------------------------------------------------------------------------------------------------ top-k and argsort
static void sorts(Run& R, DataTypes dt, int ext, int part, int parts) {
  bool fl = dt == kFloat32 || dt == kFloat16; D grid = fl ? D{-1.5, 0, 2, NEG} : D{-3, 0, 7}; long G = grid.size(), at = 0;
  for (auto& s : shapes(1, 3, ext, false)) for (int d = -(int)s.size() - 1; d <= (int)s.size(); ++d) {
    int n = s.size(), e = d < 0 ? d + n : d; bool out = e < 0 || e >= n; int len = out ? 1 : s[e]; long N = prod(s), lines = out ? 1 : N / len;
    // every content of one line; the other lines of the tensor hold other contents of the same enumeration
    long combos = 1; for (int k = 0; k < len; ++k) combos *= G;
    for (long c = 0; c < combos; ++c) {
      if (at++ % parts != part) continue;
      D v(N); for (long i = 0; i < N; ++i) {
        if (out) { v[i] = grid[i % G]; continue; }
        auto x = unravel(i, s); int k = x[e]; x[e] = 0; auto s1 = s; s1[e] = 1; long line = ravel(x, s1);
        long q = (c + line * 7919) % combos; for (int j = 0; j < k; ++j) q /= G; v[i] = grid[q % G];
      }
      int l = c % 4;
      auto line = [&](long ln, int k) { auto s1 = s; s1[e] = 1; auto x = unravel(ln, s1); x[e] = k; return x; };
      for (int k = 0; k <= len + 1; ++k) for (int big = 0; big < 2; ++big) for (int so = 0; so < 2; ++so) {
        R.one("topk", vf::cat("top ", k, " of ", vf::seq(v), " as ", vf::seq(s), " along ", d, big ? " largest" : " smallest", so ? " sorted" : "", lay({l})), [&] {
          In in(s, dt, v, l); bool bad = out || k < 1 || k > len;
          bool ok = R.op(OpTypes::kTopK, aops::TopKOpOptions{.k = k, .dim = d, .largest = (bool)big, .sorted = (bool)so}, {in.t});
          Run::must(ok, !bad, bad);
          in.untouched();
          if (!ok) return;
          auto o = s; o[e] = k;
          if (R.out.size() != 2 || R.out[0].shape() != o || R.out[1].shape() != o) vf::fail("shape", "wrong shape");
          if (R.out[0].dtype() != dt || R.out[1].dtype() != kInt32) vf::fail("dtype", "wrong element type");
          for (long ln = 0; ln < lines; ++ln) {
            D all, got; std::set<int> used;
            for (int j = 0; j < len; ++j) all.push_back(v[ravel(line(ln, j), s)]);
            for (int j = 0; j < k; ++j) {
              double val = get(R.out[0], line(ln, j)); int idx = get(R.out[1], line(ln, j));
              if (idx < 0 || idx >= len || !used.insert(idx).second) vf::fail("index", vf::cat("index ", idx, " is out of range or repeated"));
              if (all[idx] != val) vf::fail("pair", "a value does not stand at its index");
              got.push_back(val);
            }
            if (so && !(big ? std::is_sorted(got.rbegin(), got.rend()) : std::is_sorted(got.begin(), got.end()))) vf::fail("order", "the values are not sorted");
            std::sort(all.begin(), all.end()); if (big) std::reverse(all.begin(), all.end()); all.resize(k);
            std::sort(got.begin(), got.end()); if (big) std::reverse(got.begin(), got.end());
            if (all != got) vf::fail("selection", vf::cat("values ", vf::seq(got), " instead of ", vf::seq(all)));
          }
        });
        if (R.full()) return;
      }
      for (int desc = 0; desc < 2; ++desc) {
        R.one("argsort", vf::cat("argsort of ", vf::seq(v), " as ", vf::seq(s), " along ", d, desc ? " descending" : "", lay({l})), [&] {
          In in(s, dt, v, l);
          bool ok = R.op(OpTypes::kArgsort, aops::ArgsortOpOptions{.dim = d, .descending = (bool)desc}, {in.t});
          Run::must(ok, !out, out);
          in.untouched();
          if (!ok) return;
          if (R.out[0].shape() != s || R.out[0].dtype() != kInt32) vf::fail("shape", "wrong shape or type");
          for (long ln = 0; ln < lines; ++ln) {
            std::set<int> used; D got;
            for (int j = 0; j < len; ++j) {
              int idx = get(R.out[0], line(ln, j));
              if (idx < 0 || idx >= len || !used.insert(idx).second) vf::fail("index", "not a permutation");
              got.push_back(v[ravel(line(ln, idx), s)]);
            }
            if (!(desc ? std::is_sorted(got.rbegin(), got.rend()) : std::is_sorted(got.begin(), got.end()))) vf::fail("order", "not in order");
          }
        });
        if (R.full()) return;
      }
    }
  }
}

// ------------------------------------------------------------------------------------------------ masked scatter
static void masked(Run& R, DataTypes dt, int ext) {
  for (auto& s : shapes(1, 3, ext, false)) {
    long N = prod(s); if (N > 8) continue;
    // masks of every shape that broadcasts, and some that do not
    std::set<I> ms;
    for (size_t skip = 0; skip < s.size(); ++skip) for (int bits = 0; bits < (1 << (s.size() - skip)); ++bits) { I m; for (size_t d = skip; d < s.size(); ++d) m.push_back(bits >> (d - skip) & 1 ? 1 : s[d]); ms.insert(m); }
    { auto m = s; m[0]++; ms.insert(m); m = s; m.insert(m.begin(), 2); ms.insert(m); }
    for (auto& m : ms) {
      long M = prod(m); bool fits = m.size() <= s.size(); for (size_t d = 0; fits && d < m.size(); ++d) fits = m[d] == 1 || m[d] == s[s.size() - m.size() + d];
      if (M > 9) continue;
      for (long bits = 0; bits < (1L << M); ++bits) for (int extra = -1; extra <= 1; ++extra) for (int l = 0; l < 4; ++l) {
        D mv; for (int k = 0; k < M; ++k) mv.push_back(bits >> k & 1 ? (k % 2 ? 1 : -1) : 0);
        std::vector<long> hit; for (long i = 0; fits && i < N; ++i) { auto x = unravel(i, s); I y; for (size_t d = 0; d < m.size(); ++d) y.push_back(m[d] == 1 ? 0 : x[s.size() - m.size() + d]); if (mv[ravel(y, m)]) hit.push_back(i); }
        int cnt = (int)hit.size() + extra; if (cnt < 1) { if (extra < 0 || cnt < 0) continue; }
        int lm = (l + bits) % 4, lsrc = (l + bits / 4) % 2;
        R.one("masked-scatter", vf::cat("masked scatter into ", vf::seq(s), " mask ", vf::seq(m), vf::seq(mv), " from ", cnt, lay({l, lm, lsrc})), [&] {
          I ss{std::max(cnt, 1)}; if (cnt > 1 && cnt % 2 == 0) ss = {2, cnt / 2};
          In dst(s, dt, labels(s), l), mk(m, kInt8, mv, lm), src(ss, dt, labels(ss, 60), lsrc);
          bool bad = !fits || (long)hit.size() > prod(ss), ok = R.op(OpTypes::kMaskedScatter, aops::MaskedScatterOpOptions{}, {dst.t, mk.t, src.t});
          Run::must(ok, !bad, bad);
          mk.untouched(); src.untouched();
          if (!ok) { dst.untouched(); return; }
          auto v = dst.v; for (size_t k = 0; k < hit.size(); ++k) v[hit[k]] = src.v[k];
          expect(dst.t, dt, s, v); expect(R.out[0], dt, s, v);
          for (long i = 0; i < N; ++i) set(dst.t, unravel(i, s), dst.v[i]);
          dst.untouched();
        });
        if (R.full()) return;
      }
    }
  }
}

// ------------------------------------------------------------------------------------------------ scatter to shards
static void shards(Run& R, DataTypes dt, int ext) {
  for (auto& s : shapes(1, 4, ext, false)) for (int d = -1; d <= (int)s.size(); ++d) for (int l = 0; l < 4; ++l) for (int delta = -1; delta <= 1; ++delta) for (int kind = 0; kind < 2; ++kind) {
    int n = s.size(); bool out = d < 0 || d >= n; int len = out ? 1 : s[d];
    if (out && (delta || kind)) continue;
    if (len + delta < 1) continue;
    R.one("scatter", vf::cat("scatter of ", vf::seq(s), " along ", d, " to ", len + delta, " shards", kind ? " pointed to in every other place" : "", lay({l})), [&] {
      In in(s, dt, labels(s), l); size_t each = out ? 1 : prod(s) / len, w = bytesOfType(dt);
      std::vector<std::vector<uint8_t>> mem(len + delta, std::vector<uint8_t>(each * w, 0xEE));
      In ptr({len + delta}, kInt64, D(len + delta, 0), kind);
      for (int k = 0; k < len + delta; ++k) *ptr.t.offsettedPtr<int64_t>({k}) = (int64_t)mem[k].data();
      bool bad = out || delta, ok = R.op(OpTypes::kScatter2Shards, aops::Scatter2ShardsOpOptions{.dim = d}, {in.t, ptr.t});
      Run::must(ok, !bad, bad);
      in.untouched();
      if (!ok) return;
      Tensor c = Tensor::empty(s, dt, kCPU).alloc();
      auto sh = s; sh[d] = 1;
      for (int k = 0; k < len; ++k) for (size_t i = 0; i < each; ++i) {
        auto x = unravel(i, sh); x[d] = k;
        if (memcmp(mem[k].data() + i * w, in.t.offsettedPtr<uint8_t>(x), w)) vf::fail("element", vf::cat("element ", i, " of shard ", k, " is wrong"));
      }
    });
    if (R.full()) return;
  }
}

// ------------------------------------------------------------------------------------------------ indexing
static void indexing(Run& R, DataTypes dt, int ext, int rank) {
  for (auto& s : shapes(rank, rank, ext, false)) {
    struct Ix { std::string name; I shape; std::vector<int> pick; int kind; bool bad, odd; SliceIndicesPair sl; };
    std::vector<std::vector<Ix>> pal(rank);
    for (int d = 0; d < rank; ++d) {
      int e = s[d]; auto& p = pal[d];
      auto sl = [&](SliceIndicesPair q, std::vector<int> pick, bool odd = false) { p.push_back({vf::cat(q.start_, ':', q.end_, ':', q.step_), {(int)pick.size()}, pick, 0, false, odd, q}); };
      std::vector<int> all(e); std::iota(all.begin(), all.end(), 0);
      sl(SliceIndicesPair(), all); sl(SliceIndicesPair(0), {0}); sl(SliceIndicesPair(-1), {e - 1});
      if (e > 1) { sl(SliceIndicesPair(1, kAll), {all.begin() + 1, all.end()}); sl(SliceIndicesPair(kAll, -1), {all.begin(), all.end() - 1}); }
      if (e > 2) sl(SliceIndicesPair(kAll, kAll, 2), {0, 2});
      for (int kind = 1; kind <= 3; ++kind) {      // list, tensor, tensor laid out with gaps
        std::vector<std::vector<int>> ps{{0}, {e - 1, 0}, {0, 0, e - 1}, {e}, {-1}, {0, e}, {-e - 1}};
        for (auto& q : ps) { if (kind == 3 && q.size() < 2) continue; bool bad = false; for (int x : q) bad |= x < 0 || x >= e; p.push_back({vf::cat(kind == 1 ? "list" : kind == 2 ? "tensor" : "strided tensor", vf::seq(q)), {(int)q.size()}, q, kind, bad, bad, {}}); }
      }
      p.push_back({"tensor2", {2, 2}, {0, e - 1, e - 1, 0}, 2, false, false, {}}); p.push_back({"strided tensor2", {1, 2}, {e - 1, 0}, 3, false, false, {}});
    }
    std::vector<size_t> k(rank, 0);
    while (true) {
      bool slices = true; int bads = 0, nonslice = 0; std::string what = "index of " + vf::seq(s) + " at"; for (int d = 0; d < rank; ++d) { auto& x = pal[d][k[d]]; if (x.kind) { slices = false; nonslice++; } bads += x.bad; what += " " + x.name; }
      if (!slices && !(bads && nonslice > 1 && rank > 1 && bads > 1)) for (int l = 0; l < 4; ++l) {
        if (l > 1 && rank > 2) continue;
        R.one("index", what + lay({l}), [&] {
          In in(s, dt, labels(s), l); ComplexIndexingList li; bool bad = false; I o; std::vector<In> hold;
          for (int d = 0; d < rank; ++d) {
            auto& x = pal[d][k[d]]; bad |= x.bad; o.insert(o.end(), x.shape.begin(), x.shape.end());
            if (x.kind == 0) li.emplace_back(x.sl);
            else if (x.kind == 1) li.emplace_back(I(x.pick.begin(), x.pick.end()));
            else { hold.emplace_back(x.shape, kInt32, D(x.pick.begin(), x.pick.end()), x.kind == 3); li.emplace_back(hold.back().t); }
          }
          Tensor r = Tensor::nil(); bool ok = vf::accepted([&] { r = in.t[li]; });
          // a negative index in a list may be refused or count from the end; so may an input with gaps
          Run::must(ok, !bad && in.t.isContiguous(), false);
          in.untouched();
          if (!ok) return;
          D v; for (long i = 0; i < prod(o); ++i) {
            auto x = unravel(i, o); I y; size_t at = 0;
            for (int d = 0; d < rank; ++d) {
              auto& q = pal[d][k[d]]; I z(x.begin() + at, x.begin() + at + q.shape.size()); at += q.shape.size(); int w = q.pick[ravel(z, q.shape)]; if (w < 0) w += s[d];
              if (w < 0 || w >= s[d]) vf::fail("accepted", "an index out of range was accepted");
              y.push_back(w);
            }
            v.push_back(in.v[ravel(y, s)]);
          }
          expect(r, dt, o, v);
        });
        if (R.full()) return;
      }
      int d = rank - 1; while (d >= 0 && ++k[d] == pal[d].size()) k[d--] = 0;
      if (d < 0) break;
    }
  }
}

// ------------------------------------------------------------------------------------------------ embedding
static void embedding(Run& R, DataTypes dt) {
  for (int vocab = 1; vocab <= 4; ++vocab) for (int hid = 1; hid <= 3; ++hid) for (int B = 1; B <= 2; ++B) for (int S = 1; S <= 3; ++S) for (int l = 0; l < 4; ++l) for (int th = 1; th <= 1; ++th) {
    long m = B * S, per = vocab + 2, combos = 1; for (int k = 0; k < m; ++k) combos *= per;
    if (combos > 1300) continue;
    for (long c = 0; c < combos; ++c) {
      D ids; long q = c; bool bad = false; for (int k = 0; k < m; ++k) { ids.push_back(q % per - 1); q /= per; bad |= ids.back() < 0 || ids.back() >= vocab; }
      R.one("embedding", vf::cat("rows ", vf::seq(ids), " of a table of ", vocab, " by ", hid, " batch ", B, lay({l})), [&] {
        In w({vocab, hid}, dt, labels({vocab, hid})), in({B, S}, kInt64, ids, l); std::vector<Tensor> out;
        cpu::CPUEmbeddingOp op(aops::EmbeddingOpOptions{.vocab_size = vocab, .hidden_size = hid}); op.weight() = w.t;
        bool ok = vf::accepted([&] { out = Context::run(op, {in.t}); });
        Run::must(ok, !bad, bad);
        w.untouched(); in.untouched();
        if (!ok) return;
        D v; for (double id : ids) for (int h = 0; h < hid; ++h) v.push_back(w.v[(long)id * hid + h]);
        expect(out[0], dt, {B, S, hid}, v);
      });
      if (R.full()) return;
    }
  }
}

void vf_job(const std::string& name, const Opt& o, vf::Stats& st) {
  auto& X = Context::instance();
  X.reg<cpu::CPUConcatOpFactory>(); X.reg<cpu::CPUStackOpFactory>(); X.reg<cpu::CPUSplitOpFactory>(); X.reg<cpu::CPUGatherOpFactory>(); X.reg<cpu::CPUPadOpFactory>();
  X.reg<cpu::CPURepeatOpFactory>(); X.reg<cpu::CPUCloneOpFactory>(); X.reg<cpu::CPUCopyOpFactory>(); X.reg<cpu::CPUContiguousOpFactory>(); X.reg<cpu::CPUTopKOpFactory>();
  X.reg<cpu::CPUArgsortOpFactory>(); X.reg<cpu::CPUMaskedScatterOpFactory>(); X.reg<cpu::CPUScatter2ShardsOpFactory>(); X.reg<cpu::CPUIndexOpFactory>(); X.reg<cpu::CPUSliceOpFactory>();
  auto g = [&](const char* k, long d) { return o.count(k) ? o.at(k) : d; };
  auto dt = (DataTypes)g("dt", 0); int ext = g("ext", 3); Run R{{st}};
  switch (g("kind", 0)) {
    case 0: join(R, dt, ext, false); break;
    case 1: join(R, dt, ext, true); break;
    case 2: split(R, dt, ext); break;
    case 3: gather(R, dt, ext, g("rank", 2)); break;
    case 4: pad(R, g("mode", 0), ext, g("rank", 2), g("most", 5)); break;
    case 5: repeat(R, dt, ext); copies(R, dt, ext); break;
    case 6: sorts(R, dt, ext, g("part", 0), g("parts", 1)); break;
    case 7: masked(R, dt, ext); break;
    case 8: shards(R, dt, ext); break;
    case 9: indexing(R, dt, ext, g("rank", 2)); break;
    case 10: embedding(R, dt); break;
  }
}
