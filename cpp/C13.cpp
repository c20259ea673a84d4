// C13: masking, rotary embedding, resampling, windowed Fourier transforms and filling compute their definition for every
// small shape, parameter and layout.
#define VF_MAIN
#include "ops.hpp"
#include <complex>
#include "mllm/backends/cpu/kernels/x86/fill.hpp"
#include "mllm/backends/cpu/ops/CausalMaskOp.hpp"
#include "mllm/backends/cpu/ops/CloneOp.hpp"
#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
#include "mllm/backends/cpu/ops/CopyOp.hpp"
#include "mllm/backends/cpu/ops/ISTFTOp.hpp"
#include "mllm/backends/cpu/ops/InterpolateOp.hpp"
#include "mllm/backends/cpu/ops/RoPEOp.hpp"
#include "mllm/backends/cpu/ops/STFTOp.hpp"

// distinct values without structure, of magnitude about one
static double val(long i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; return (double)(x % 2000) / 1000 - 1 + 0.0004 * (i % 7); }
static D values(long n, long first = 0) { D d; for (long i = 0; i < n; ++i) d.push_back((float)val(first + i)); return d; }
static void near(const Tensor& o, const I& shape, const D& v, double tol) {
  if (o.isNil()) vf::fail("nil", "no result");
  if (o.shape() != shape) vf::fail("shape", vf::cat("shape ", vf::seq(o.shape()), " instead of ", vf::seq(shape)));
  for (long i = 0; i < prod(shape); ++i) {
    double x = get(o, unravel(i, shape));
    if (!(std::abs(x - v[i]) <= tol)) vf::fail("element", vf::cat("element ", vf::seq(unravel(i, shape)), " is ", x, " instead of ", v[i]));
  }
}

// ------------------------------------------------------------------------------------------------ causal mask
// The S queries are the last S of D positions; a query sees the positions up to its own, with a window only the last w of them.
static void mask(Run& R, DataTypes dt, int smax, int dmax) {
  for (int S = 1; S <= smax; ++S) for (int Dn = 1; Dn <= dmax; ++Dn) for (int w = 0; w <= Dn + 1; ++w) for (int bh = 0; bh < 4; ++bh) for (int l = 0; l < 4; ++l) {
    if (bh && S > 4 && Dn > 4) continue;
    int B = 1 + bh % 2, H = 1 + bh / 2 * 2; I s{B, H, S, Dn};
    R.one("mask", vf::cat("mask of ", vf::seq(s), " window ", w, lay({l})), [&] {
      D v = labels(s); In in(s, dt, v, l);
      bool ok = R.op(OpTypes::kCausalMask, aops::CausalMaskOpOptions{.sliding_window = w > 0, .window_size = w}, {in.t});
      Run::must(ok, true, false); in.untouched();
      auto& o = R.out[0];
      if (o.shape() != s) vf::fail("shape", vf::cat("shape ", vf::seq(o.shape())));
      for (long i = 0; i < prod(s); ++i) {
        auto x = unravel(i, s); int p = Dn - S + x[2]; bool see = x[3] <= p && (w == 0 || x[3] > p - w); double y = get(o, x);
        if (see && y != v[i]) vf::fail(y < -60000 ? "hidden" : "element", vf::cat("key ", x[3], " for query ", x[2], " is ", y, " instead of ", v[i]));
        if (!see && !(y < -60000)) vf::fail("seen", vf::cat("key ", x[3], " is seen by query ", x[2], " at position ", p, ": ", y));
      }
    });
    if (R.full()) return;
  }
}

// ------------------------------------------------------------------------------------------------ rotary embedding
static void rope(Run& R, int ext, int dmax) {
  for (int type = 0; type < 2; ++type) for (int B = 1; B <= 2; ++B) for (int H = 1; H <= ext; ++H) for (int S = 1; S <= ext; ++S) for (int Dn = 1; Dn <= dmax; ++Dn)
    for (int pd = -1; pd <= Dn + 2; ++pd) for (int l = 0; l < 4; ++l) for (int tab = 0; tab < 6; ++tab) for (int inpl = 0; inpl < 2; ++inpl) {
      if (tab && (l || inpl)) continue;
      int half = (pd == -1 ? Dn : pd) / 2; if (half == 0 && tab) continue;
      // tables: 0 as wide as the row, 1 as wide as the rotated half, 2 laid out with gaps, 3 more positions than needed, 4 too few positions, 5 too narrow
      bool bad = half * 2 > Dn || tab == 4 || tab == 5;
      I s = type == 0 ? I{B, H, S, Dn} : I{B, S, H, Dn};
      R.one("rope", vf::cat(type ? "BSHD " : "BHSD ", vf::seq(s), " rotating ", pd, " tables ", tab, inpl ? " in place" : "", lay({l})), [&] {
        int TS = S + (tab == 3) - (tab == 4), TD = tab == 1 ? half : tab == 5 ? half - 1 : std::max(half * 2, 1);
        if (TS <= 0 || TD <= 0) return;
        I ts{B, TS, TD}; D sv(prod(ts)), cv(prod(ts));
        for (long i = 0; i < prod(ts); ++i) { auto x = unravel(i, ts); double a = val((x[0] * 64 + x[1]) * 64 + (half ? x[2] % half : 0)) * 3; sv[i] = (float)std::sin(a); cv[i] = (float)std::cos(a); }
        D v = values(prod(s), 100); In in(s, kFloat32, v, l), sn(ts, kFloat32, sv, tab == 2), cs(ts, kFloat32, cv, tab == 2);
        aops::RoPEOpOptions o; o.input_type = (aops::RoPEOpOptionsInputType)type; o.partial_dim = pd; if (inpl) o.setInplace(true);
        bool ok = R.op(OpTypes::kRoPE, o, {in.t, sn.t, cs.t});
        Run::must(ok, !bad && !(inpl && l == 1), bad);
        sn.untouched(); cs.untouched(); if (!inpl) in.untouched();
        if (!ok) return;
        D e(prod(s));
        for (long i = 0; i < prod(s); ++i) {
          auto x = unravel(i, s); int p = type == 0 ? x[2] : x[1], d = x[3];
          if (d >= 2 * half) { e[i] = v[i]; continue; }
          auto at = [&](int k) { auto y = x; y[3] = k; return v[ravel(y, s)]; };
          I tx{x[0], p, d % half}; double a = at(d % half), b = at(d % half + half), si = sv[ravel(tx, ts)], co = cv[ravel(tx, ts)];
          e[i] = d < half ? a * co - b * si : a * si + b * co;
        }
        near(R.out[0], s, e, 1e-5);
        if (inpl) near(in.t, s, e, 1e-5);
        if (inpl && l) {    // the rest of the larger tensor is as before
          std::vector<double> all; long n = in.base.numel(), hit = 0; I bs = in.base.shape();
          for (long i = 0; i < n; ++i) if (get(in.base, unravel(i, bs)) == 99) hit++;
          if (hit != n - prod(s)) vf::fail("around", "memory beside the rotated tensor was written");
        }
      });
      if (R.full()) return;
    }
}

// ------------------------------------------------------------------------------------------------ resampling
// A target sample lies at the source coordinate of its centre (or, with aligned corners, the corners coincide); the value
// there is the nearest sample, or interpolated linearly or by the cubic through four samples, the edge samples continued.
static double coord(int o, int in, int out, bool al) { return al ? (out > 1 ? o * double(in - 1) / (out - 1) : 0) : (o + 0.5) * in / out - 0.5; }
static void weights(int mode, double x, int n, std::map<int, double>& w) {
  auto put = [&](int i, double q) { w[std::min(std::max(i, 0), n - 1)] += q; };
  int f = (int)std::floor(x + 1e-7); double t = x - f; if (std::abs(t) < 1e-6) t = 0;
  if (mode <= 1) { put(f, 1 - t); put(f + 1, t); return; }
  put(f - 1, -0.5 * t + t * t - 0.5 * t * t * t); put(f, 1 - 2.5 * t * t + 1.5 * t * t * t);
  put(f + 1, 0.5 * t + 2 * t * t - 1.5 * t * t * t); put(f + 2, -0.5 * t * t + 0.5 * t * t * t);
}
static void resample(Run& R, int mode, int rank, int ext, int big) {       // modes as in InterpolateOpMode
  auto m = (aops::InterpolateOpMode)mode; int sp = rank - 2; int N = 2, C = 2;
  std::vector<I> ins; I s(sp, 1);
  while (true) { ins.push_back(s); int d = sp - 1; while (d >= 0 && ++s[d] > ext) s[d--] = 1; if (d < 0) break; }
  for (auto& a : ins) for (auto b0 : ins) for (int grow = 0; grow < (sp == 1 ? 1 : 2); ++grow) for (int al = 0; al < 2; ++al) for (int how = 0; how < 2; ++how) for (int l = 0; l < (how ? 1 : 4); ++l) {
    I b = b0; if (grow) for (auto& x : b) x += big; else if (sp == 1) b[0] = b0[0];
    if (how) for (int d = 0; d < sp; ++d) b[d] = a[d] * b0[d];      // by an integer factor
    if (how && grow) continue;
    I is{N, C}, os{N, C}; is.insert(is.end(), a.begin(), a.end()); os.insert(os.end(), b.begin(), b.end());
    R.one("resample", vf::cat("mode ", mode, " ", vf::seq(is), " to ", vf::seq(os), al ? " corners aligned" : "", how ? " by factor" : "", lay({l})), [&] {
      aops::InterpolateOpOptions o; o.mode = m; o.align_corners = al;
      if (how) { for (int d = 0; d < sp; ++d) o.scale_factor.push_back((float)b0[d]); } else o.size = std::vector<int>(b.begin(), b.end());
      D v = values(prod(is)); In in(is, kFloat32, v, l);
      bool ok = R.op(OpTypes::kInterpolate, o, {in.t});
      Run::must(ok, true, false); in.untouched();
      auto& out = R.out[0];
      if (out.shape() != os) vf::fail("shape", vf::cat("shape ", vf::seq(out.shape()), " instead of ", vf::seq(os)));
      for (long i = 0; i < prod(os); ++i) {
        auto x = unravel(i, os); double y = get(out, x);
        std::vector<std::map<int, double>> w(sp);
        if (mode == 0) {         // between two samples both are nearest
          std::vector<std::vector<int>> cand(sp); bool hit = false;
          for (int d = 0; d < sp; ++d) { double c = coord(x[d + 2], a[d], b[d], al); for (int k = 0; k < a[d]; ++k) { double best = 1e9; for (int j = 0; j < a[d]; ++j) best = std::min(best, std::abs(c - j)); if (std::abs(c - k) <= best + 1e-5) cand[d].push_back(k); } }
          std::vector<size_t> k(sp, 0);
          while (!hit) {
            I z{x[0], x[1]}; for (int d = 0; d < sp; ++d) z.push_back(cand[d][k[d]]);
            hit |= v[ravel(z, is)] == y;
            int d = sp - 1; while (d >= 0 && ++k[d] == cand[d].size()) k[d--] = 0;
            if (d < 0) break;
          }
          if (!hit) vf::fail("element", vf::cat("element ", vf::seq(x), " is ", y, ", none of its nearest samples"));
          continue;
        }
        for (int d = 0; d < sp; ++d) weights(mode == 3 ? 3 : 1, coord(x[d + 2], a[d], b[d], al), a[d], w[d]);
        double e = 0; std::vector<std::map<int, double>::iterator> k; for (auto& q : w) k.push_back(q.begin());
        while (true) {
          double q = 1; I z{x[0], x[1]}; for (int d = 0; d < sp; ++d) { q *= k[d]->second; z.push_back(k[d]->first); }
          e += q * v[ravel(z, is)];
          int d = sp - 1; while (d >= 0 && ++k[d] == w[d].end()) { k[d] = w[d].begin(); d--; }
          if (d < 0) break;
        }
        if (!(std::abs(y - e) < 1e-4)) vf::fail("element", vf::cat("element ", vf::seq(x), " is ", y, " instead of ", e));
      }
    });
    if (R.full()) return;
  }
}

// ------------------------------------------------------------------------------------------------ short-time Fourier transform
static const double PI = 3.14159265358979323846;
static void stft(Run& R, int lo, int nmax, int lmax) {
  for (int n = lo; n <= nmax; ++n) for (int hop = 0; hop <= std::min(n + 1, 5); ++hop) for (int L = 1; L <= lmax; ++L) for (int mode = 0; mode < 3; ++mode) for (int B = 0; B <= 3; ++B) for (int l = 0; l < 4; ++l) for (int cx = 0; cx < 2; ++cx) {
    // mode: 0 as it is, 1 centred and reflected, 2 centred and padded with zeros; B = 0 is a signal without batch dimension
    if (l && (B == 1 || cx)) continue;
    int h = hop ? hop : n / 4, P = mode ? n / 2 : 0, len = L + 2 * P; bool bad = h == 0 || len < n || (mode == 1 && P >= L);
    R.one("stft", vf::cat("length ", L, " batch ", B, " transform ", n, " step ", hop, " mode ", mode, cx ? " complex" : "", lay({l})), [&] {
      I is = B ? I{B, L} : I{L}; int nb = std::max(B, 1); D v = values(nb * L), wv = values(n, 7000); for (auto& x : wv) x = (float)(1.2 + x);
      In in(is, kFloat32, v, l), win({n}, kFloat32, wv, l == 1);
      aops::STFTOpOptions o; o.n_fft = n; o.hop_length = hop; o.center = mode > 0; o.pad_mode = mode == 2 ? "constant" : "reflect"; o.return_complex = cx;
      bool ok = R.op(OpTypes::kSTFT, o, {in.t, win.t});
      Run::must(ok, !bad, bad); in.untouched(); win.untouched();
      if (!ok) return;
      int F = 1 + (len - n) / h, Q = n / 2 + 1; I os{nb, Q, F}; if (!cx) os.push_back(2);
      auto& out = R.out[0]; if (out.shape() != os) vf::fail("shape", vf::cat("shape ", vf::seq(out.shape()), " instead of ", vf::seq(os)));
      for (int b = 0; b < nb; ++b) for (int f = 0; f < F; ++f) for (int q = 0; q < Q; ++q) {
        std::complex<double> e = 0;
        for (int i = 0; i < n; ++i) {
          int at = f * h + i - P; double x;
          if (at >= 0 && at < L) x = v[b * L + at]; else if (mode == 1) x = v[b * L + (at < 0 ? -at : 2 * (L - 1) - at)]; else x = 0;
          e += x * wv[i] * std::polar(1.0, -2 * PI * q * i / n);
        }
        std::complex<double> y;
        if (cx) y = *out.coffsettedPtr<std::complex<float>>({b, q, f}); else y = {get(out, {b, q, f, 0}), get(out, {b, q, f, 1})};
        if (!(std::abs(y - e) < 2e-3)) vf::fail("element", vf::cat("batch ", b, " frame ", f, " frequency ", q, " is ", y.real(), " ", y.imag(), " instead of ", e.real(), " ", e.imag()));
      }
    });
    if (R.full()) return;
  }
}
static void istft(Run& R, int lo, int nmax, int fmax) {
  for (int n = lo; n <= nmax; ++n) for (int hop = 0; hop <= std::min(n + 2, 6); ++hop) for (int F = 1; F <= fmax; ++F) for (int mode = 0; mode < 3; ++mode) for (int B = 1; B <= 3; ++B) for (int cx = 0; cx < 2; ++cx) for (int wk = 0; wk < 3; ++wk) for (int l = 0; l < 3; ++l) {
    // mode: 0 as it is, 1 centred, 2 trimmed to the length of the frames' steps; window: 0 nowhere zero, 1 zero at its ends, 2 of rank two
    if (l && (cx || wk)) continue;
    int h = hop ? hop : n / 4; if (h > 0 && wk == 1 && h >= n) continue;
    int full = h ? (F - 1) * h + n : 0, T = mode == 1 ? n / 2 : mode == 2 ? (n - h) / 2 : 0, len = full - 2 * T;
    bool bad = h == 0 || (mode == 2 && h > n); if (!bad && len <= 0) continue;
    R.one("istft", vf::cat(F, " frames batch ", B, " transform ", n, " step ", hop, " mode ", mode, " window ", wk, cx ? " complex" : "", lay({l})), [&] {
      int Q = n / 2 + 1; I is{B, Q, F}; D v = values(B * Q * F * 2), wv = values(n, 7000); for (auto& x : wv) x = (float)(1.2 + x); if (wk == 1) { wv[0] = 0; wv[n - 1] = 0; }
      Tensor spec = Tensor::nil(); std::vector<In> hold; hold.reserve(2);
      if (cx) { spec = Tensor::empty(is, kComplexFloat32, kCPU).alloc(); for (long i = 0; i < prod(is); ++i) *spec.offsettedPtr<std::complex<float>>(unravel(i, is)) = {(float)v[2 * i], (float)v[2 * i + 1]}; }
      else { I r = is; r.push_back(2); hold.emplace_back(r, kFloat32, v, l == 2 ? 2 : l); spec = hold.back().t; }
      In win(wk == 2 ? I{1, n} : I{n}, kFloat32, wv, 0);
      aops::ISTFTOpOptions o; o.n_fft = n; o.hop_length = hop; o.center = mode == 1; o.pad_mode = mode == 2 ? "same" : "reflect";
      bool ok = R.op(OpTypes::kISTFT, o, {spec, win.t});
      Run::must(ok, !bad, bad); win.untouched(); for (auto& x : hold) x.untouched();
      if (!ok) return;
      D e;
      for (int b = 0; b < B; ++b) {
        D y(full, 0.0), env(full, 0.0);
        for (int f = 0; f < F; ++f) for (int i = 0; i < n; ++i) {
          double x = 0;
          for (int q = 0; q < n; ++q) {
            int k = q < Q ? q : n - q; long at = ((long)(b * Q + k) * F + f) * 2; std::complex<double> c(v[at], v[at + 1]); if (q >= Q) c = std::conj(c);
            x += (c * std::polar(1.0, 2 * PI * q * i / n)).real();
          }
          y[f * h + i] += x / n * wv[i]; env[f * h + i] += wv[i] * wv[i];
        }
        for (int i = T; i < T + len; ++i) e.push_back(env[i] > 1e-10 ? y[i] / env[i] : y[i]);
      }
      near(R.out[0], {B, len}, e, 4e-3);
    });
    if (R.full()) return;
  }
}

// ------------------------------------------------------------------------------------------------ filling
static void filling(Run& R, int nmax) {
  for (int n = 0; n <= nmax; ++n) for (int off = 0; off < 8; ++off) for (int kind = 0; kind < 5; ++kind) for (int q = 0; q < 6; ++q) {
    if (kind < 2 && q) continue;
    static const float st[] = {0, 1, -3.5f, 0.25f, 7, -1}, sp[] = {1, -2, 0.5f, 0, 3, 0.125f};
    R.one("fill", vf::cat("kind ", kind, " of ", n, " at offset ", off, " parameters ", q), [&] {
      std::vector<float> m(n + off + 8, 99.f); float* p = m.data() + off; std::vector<float> again;
      switch (kind) {
        case 0: cpu::x86::fill_zeros(p, n, 1); break;
        case 1: cpu::x86::fill_ones(p, n, 1); break;
        case 2: cpu::x86::fill_specific_value(p, n, st[q], 1); break;
        case 3: cpu::x86::fill_arange(p, n, st[q], st[q] + n * sp[q], sp[q], 1); break;
        case 4: cpu::x86::fill_random(p, n, std::min(st[q], sp[q]), std::max(st[q], sp[q]), 41 + q, 1); again.assign(n + 1, 99.f); cpu::x86::fill_random(again.data(), n, std::min(st[q], sp[q]), std::max(st[q], sp[q]), 41 + q, 1); break;
      }
      for (int i = 0; i < n; ++i) {
        double e = kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? st[q] : kind == 3 ? st[q] + (double)i * sp[q] : 0;
        if (kind < 4 && std::abs(p[i] - e) > 1e-4) vf::fail("element", vf::cat("element ", i, " is ", p[i], " instead of ", e));
        if (kind == 4 && !(p[i] >= std::min(st[q], sp[q]) && p[i] <= std::max(st[q], sp[q]))) vf::fail("range", vf::cat("random element ", p[i], " out of range"));
        if (kind == 4 && p[i] != again[i]) vf::fail("seed", "the same seed gave another value");
      }
      for (int i = 0; i < (int)m.size(); ++i) if ((i < off || i >= off + n) && m[i] != 99.f) vf::fail("around", "memory beside the filled range was written");
    });
    if (R.full()) return;
  }
}

void vf_job(const std::string& name, const Opt& o, vf::Stats& st) {
  auto& X = Context::instance();
  X.reg<cpu::CPUCloneOpFactory>(); X.reg<cpu::CPUCopyOpFactory>(); X.reg<cpu::CPUContiguousOpFactory>(); X.reg<cpu::CPUCausalMaskOpFactory>(); X.reg<cpu::CPURoPEOpFactory>(); X.reg<cpu::CPUInterpolateOpFactory>(); X.reg<cpu::CPUSTFTOpFactory>(); X.reg<cpu::CPUISTFTOpFactory>();
  auto g = [&](const char* k, long d) { return o.count(k) ? o.at(k) : d; };
  Run R{{st}};
  switch (g("kind", 0)) {
    case 0: mask(R, (DataTypes)g("dt", 0), g("smax", 6), g("dmax", 20)); break;
    case 1: rope(R, g("ext", 2), g("dmax", 6)); break;
    case 2: resample(R, g("mode", 0), g("rank", 4), g("ext", 3), g("big", 3)); break;
    case 3: stft(R, g("lo", 1), g("hi", 6), g("len", 12)); break;
    case 4: istft(R, g("lo", 1), g("hi", 6), g("frames", 4)); break;
    case 5: filling(R, g("n", 40)); break;
  }
}
