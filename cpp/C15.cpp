// C15: quantised blocks, dot products and matrix products compute their definition: every code in every place of a block,
// every length around the vector widths, every tile shape, thread split and padding of the matrix kernel.
#define VF_MAIN
#include "ops.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/matmul.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/vec_dot.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/vec_dot_type.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q2.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q3.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q4.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q6.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.hpp"
#include "mllm/backends/cpu/kernels/common/llamafile/llamafile_sgemm.hpp"
using namespace mllm::cpu;
using B = std::vector<uint8_t>;

static uint32_t mix(uint32_t a, uint32_t b = 0) { uint32_t x = a * 2654435761u + b * 40503u + 12345; x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; return x; }
static double h16(const uint8_t* p) {   // IEEE half precision, by definition
  int b = p[0] | p[1] << 8, e = b >> 10 & 31, m = b & 1023; double v = e ? std::ldexp(1024 + m, e - 25) : std::ldexp(m, -24); return b >> 15 ? -v : v;
}
static double f32(const uint8_t* p) { float f; memcpy(&f, p, 4); return f; }
static void put16(uint8_t* p, double v) { mllm_fp16_t h = (mllm_fp16_t)(float)v; memcpy(p, &h, 2); }

// ------------------------------------------------------------------------------------------------ the formats, by definition
struct Fmt { const char* name; DataTypes dt; int bytes, n, d, dmin; };   // bytes of a block, elements, where its scales are
static const Fmt FMT[] = {{"f32", kFloat32, 4, 1, -1, -1}, {"f16", kFloat16, 2, 1, -1, -1}, {"q4_0", kGGUF_Q4_0, 18, 32, 0, -1}, {"q8_0", kGGUF_Q8_0, 34, 32, 0, -1}, {"q2_K", kGGUF_Q2_K, 84, 256, 80, 82},
                          {"q3_K", kGGUF_Q3_K, 110, 256, 108, -1}, {"q4_K", kGGUF_Q4_K, 144, 256, 0, 2}, {"q6_K", kGGUF_Q6_K, 210, 256, 208, -1}, {"q8_K", kGGUF_Q8_K, 292, 256, -2, -1}, {"iq2_xxs", kGGUF_IQ2_XXS, 66, 256, 0, -1}};
static const Fmt& formatOf(DataTypes d) { for (auto& f : FMT) if (f.dt == d) return f; vf::fail("harness", "format"); }

static double elem(const Fmt& F, const uint8_t* b, int i) {
  switch (F.dt) {
    case kFloat32: return f32(b);
    case kFloat16: return h16(b);
    case kGGUF_Q4_0: return h16(b) * ((i < 16 ? b[2 + i] & 15 : b[2 + i - 16] >> 4) - 8);
    case kGGUF_Q8_0: return h16(b) * (int8_t)b[2 + i];
    case kGGUF_Q8_K: return f32(b) * (int8_t)b[4 + i];
    case kGGUF_Q2_K: { int g = i / 128, j = i % 128 / 32, l = i % 32, sc = b[i / 16]; return h16(b + 80) * (sc & 15) * (b[16 + 32 * g + l] >> 2 * j & 3) - h16(b + 82) * (sc >> 4); }
    case kGGUF_Q3_K: {
      int g = i / 128, j = i % 128 / 32, l = i % 32, s = i / 16; auto* q = b + 96; int lo = s < 8 ? q[s] & 15 : q[s - 8] >> 4, hi = q[8 + s % 4] >> 2 * (s / 4) & 3;
      return h16(b + 108) * ((lo | hi << 4) - 32) * ((b[32 + 32 * g + l] >> 2 * j & 3) - (b[l] >> (4 * g + j) & 1 ? 0 : 4));
    }
    case kGGUF_Q4_K: {
      int s = i / 32; auto* q = b + 4; int sc = s < 4 ? q[s] & 63 : (q[s + 4] & 15) | q[s - 4] >> 6 << 4, mn = s < 4 ? q[s + 4] & 63 : q[s + 4] >> 4 | q[s] >> 6 << 4;
      int v = b[16 + i / 64 * 32 + i % 32]; return h16(b) * sc * (i % 64 < 32 ? v & 15 : v >> 4) - h16(b + 2) * mn;
    }
    case kGGUF_Q6_K: {
      int g = i / 128, j = i % 128 / 32, l = i % 32, lo = b[64 * g + l + (j & 1) * 32], hi = b[128 + 32 * g + l] >> 2 * j & 3;
      return h16(b + 208) * (int8_t)b[192 + i / 16] * (((j < 2 ? lo & 15 : lo >> 4) | hi << 4) - 32);
    }
    case kGGUF_IQ2_XXS: {
      int s = i / 32, l = i % 32 / 8, j = i % 8; auto* q = b + 2 + 8 * s; uint32_t w; memcpy(&w, q + 4, 4); int g = w >> 7 * l & 127, sg = g | (__builtin_popcount(g) & 1) << 7;
      return h16(b) * (0.5 + (w >> 28)) * 0.25 * ((const uint8_t*)(iq2xxs_grid + q[l]))[j] * (sg >> j & 1 ? -1 : 1);
    }
    default: vf::fail("harness", "format");
  }
}
static D decode(const Fmt& F, const B& b) { D r; for (size_t k = 0; k < b.size() / F.bytes; ++k) for (int i = 0; i < F.n; ++i) r.push_back(elem(F, b.data() + k * F.bytes, i)); return r; }
static void sums(uint8_t* b) { for (int g = 0; g < 16; ++g) { int s = 0; for (int i = 0; i < 16; ++i) s += (int8_t)b[4 + 16 * g + i]; int16_t t = s; memcpy(b + 260 + 2 * g, &t, 2); } }
// A block whose codes are without structure (pattern < 4) or at their limits.
static void block(const Fmt& F, uint8_t* b, int pattern, uint32_t seed) {
  for (int i = 0; i < F.bytes; ++i) b[i] = pattern < 4 ? mix(i + 1000 * seed, pattern) : pattern == 4 ? 0 : pattern == 5 ? 0xff : pattern == 6 ? 0x80 : 0x7f;
  static const double S[] = {0.5, -0.25, 1, 2};
  double d = S[(seed + pattern) % 4];
  if (F.dt == kFloat32) { float f = pattern < 4 ? (int)(mix(seed, pattern) % 41) - 20 : d; memcpy(b, &f, 4); }
  else if (F.dt == kFloat16) put16(b, pattern < 4 ? (int)(mix(seed, pattern) % 41) - 20 : d);
  else if (F.dt == kGGUF_Q8_K) { float f = d; memcpy(b, &f, 4); }
  else put16(b + F.d, d);
  if (F.dmin >= 0) put16(b + F.dmin, S[(seed + pattern + 1) % 4]);
  if (F.dt == kGGUF_Q8_0 || F.dt == kGGUF_Q8_K) for (int i = 2 + 2 * (F.dt == kGGUF_Q8_K), e = i + F.n; i < e; ++i) if (b[i] == 0x80) b[i] = 0x81;   // symmetric quantisation has no -128
  if (F.dt == kGGUF_Q8_K) sums(b);
}
static B blocks(const Fmt& F, int nb, int pattern, uint32_t seed) { B r(nb * F.bytes); for (int k = 0; k < nb; ++k) block(F, r.data() + k * F.bytes, pattern, seed + k); return r; }
// Bytes that are codes (not the wide scales); of a q8_K block only its codes, their sums follow from them
static bool code(const Fmt& F, int i) { if (F.dt == kGGUF_Q8_K) return i >= 4 && i < 260; return !(i >= F.d && i < F.d + 2) && !(F.dmin >= 0 && i >= F.dmin && i < F.dmin + 2); }
// Allocated exactly, so that the sanitizer sees any access beyond
template<class T> struct Exact { T* p; explicit Exact(const std::vector<T>& v) : p((T*)malloc(std::max<size_t>(1, v.size() * sizeof(T)))) { if (v.size()) memcpy(p, v.data(), v.size() * sizeof(T)); } ~Exact() { free(p); } Exact(const Exact&) = delete; };
template<class... A> static void near(double x, double w, double scale, double tol, const char* sig, const A&... what) {
  if (!(std::fabs(x - w) <= tol * scale + 1e-30)) vf::fail(sig, vf::cat(what..., " is ", x, " instead of ", w));
}

// ------------------------------------------------------------------------------------------------ decoding
static void decoding(Run& R, const Fmt& F, int step) {
  auto T = ggml::getRuntimeTypeTraits(F.dt); std::string g = vf::cat("decode-", F.name);
  auto verify = [&](const B& b) {
    D w = decode(F, b); Exact<uint8_t> e(b);
    if (T.to_float) { std::vector<float> o(w.size(), 7e30f); Exact<float> d(o); T.to_float(e.p, d.p, w.size()); for (size_t i = 0; i < w.size(); ++i) near(d.p[i], w[i], std::fabs(w[i]) + 1000 * (F.dmin >= 0), 1e-6, "value", "element ", i); }
    if (T.add_row_to) for (float alpha : {1.f, -0.5f}) {
      std::vector<float> o(w.size()); for (size_t i = 0; i < o.size(); ++i) o[i] = (int)(mix(i) % 100);
      Exact<float> d(o); T.add_row_to(w.size(), e.p, d.p, alpha);
      for (size_t i = 0; i < w.size(); ++i) near(d.p[i], o[i] + alpha * w[i], 100 + std::fabs(w[i]) + 1000 * (F.dmin >= 0), 1e-6, "add", "sum ", i, " with factor ", alpha);
    }
    if (b.size() && memcmp(e.p, b.data(), b.size())) vf::fail("input-changed", "the block was written to");
  };
  R.one(g, "sizes", [&] { if (T.size != (size_t)F.bytes || T.blck_size != F.n || bytesOfType(F.dt) != (size_t)F.bytes || lanesOfType(F.dt) != (size_t)F.n) vf::fail("size", "block size or length"); });
  for (int nb = 0; nb <= (F.n == 1 ? 40 : 4); ++nb) for (int p = 0; p < 8; ++p) R.one(g, vf::cat(nb, " blocks of pattern ", p), [&] { verify(blocks(F, nb, p, nb)); });
  if (F.n > 1) for (int p = 0; p < 2; ++p) for (int i = 0; i < F.bytes && !R.full(); ++i) if (code(F, i)) for (int v = 0; v < 256; v += step)
    R.one(g, vf::cat("byte ", i, " is ", v, " in pattern ", p), [&] { B b = blocks(F, 1, p, 3); b[i] = v; if (F.dt == kGGUF_Q8_K) sums(b.data()); verify(b); });
}

// ------------------------------------------------------------------------------------------------ dot products
static void dots(Run& R, const Fmt& F, int step) {
  auto T = ggml::getRuntimeTypeTraits(F.dt); if (!T.vec_dot) return;
  auto& Y = formatOf(T.vec_dot_type); std::string g = vf::cat("dot-", F.name);
  auto verify = [&](const B& x, const B& y) {
    D a = decode(F, x), b = decode(Y, y); double w = 0, s = 0; for (size_t i = 0; i < a.size(); ++i) { w += a[i] * b[i]; s += std::fabs(a[i] * b[i]); }
    if (F.dmin >= 0) s += 100 * a.size();      // products of the minima cancel
    Exact<uint8_t> ex(x), ey(y); float o = 7e30f; T.vec_dot(a.size(), &o, ex.p, ey.p); near(o, w, s, 3e-6, "value", "the dot product");
  };
  for (int nb = 0; nb <= (F.n == 1 ? 140 : 5); ++nb) for (int p = 0; p < 8; ++p) for (int q = 0; q < 8; ++q)
    R.one(g, vf::cat(nb, " blocks of patterns ", p, " and ", q), [&] { verify(blocks(F, nb, p, nb), blocks(Y, nb, q, nb + 7)); });
  if (F.n == 1) { for (int n = 1; n <= 140; ++n) for (int i = 0; i < n; ++i) R.one(g, vf::cat("length ", n, ", one element at ", i), [&] { B x = blocks(F, n, 0, 1), y(n * Y.bytes, 0); auto u = blocks(Y, 1, 4, 2); memcpy(y.data() + i * Y.bytes, u.data(), Y.bytes); verify(x, y); }); return; }
  for (int p = 0; p < 2; ++p) for (int i = 0; i < F.bytes && !R.full(); ++i) if (code(F, i)) for (int v = 0; v < 256; v += step)
    R.one(g, vf::cat("byte ", i, " is ", v, " in pattern ", p), [&] { B x = blocks(F, 1, p, 3), y = blocks(Y, 1, p + 1, 5); x[i] = v; if ((F.dt == kGGUF_Q8_0 || F.dt == kGGUF_Q8_K) && v == 128) return; if (F.dt == kGGUF_Q8_K) sums(x.data()); verify(x, y); });
  for (int nb = 1; nb <= 2; ++nb) for (int i = 0; i < nb * F.n && !R.full(); ++i) for (int v : {1, -1, 127, -127})   // one element alone
    R.one(g, vf::cat("element ", i, " of ", nb, " blocks against ", v), [&] {
      B x = blocks(F, nb, 0, 2), y = blocks(Y, nb, 4, 1); y[i / Y.n * Y.bytes + (Y.dt == kGGUF_Q8_K ? 4 : 2) + i % Y.n] = v; if (Y.dt == kGGUF_Q8_K) for (int k = 0; k < nb; ++k) sums(y.data() + k * Y.bytes); verify(x, y); });
}

// ------------------------------------------------------------------------------------------------ encoding
static void encoding(Run& R, const Fmt& F) {
  auto T = ggml::getRuntimeTypeTraits(F.dt); if (!T.from_float) return;
  std::string g = vf::cat("encode-", F.name); int n = F.n; double worst = 0;
  auto verify = [&](const std::vector<float>& x) {
    int nb = x.size() / n; std::vector<float> in = x; Exact<float> e(in); Exact<uint8_t> o(B(nb * F.bytes, 0xa5)); T.from_float(e.p, o.p, x.size());
    if (x.size() && memcmp(e.p, x.data(), x.size() * 4)) vf::fail("input-changed", "the row was written to");
    B b(o.p, o.p + nb * F.bytes); D w = decode(F, b);
    for (int k = 0; k < nb; ++k) {
      double amax = 0, lo = 0, hi = 0; for (int i = 0; i < n; ++i) { double v = x[k * n + i]; amax = std::max(amax, std::fabs(v)); lo = std::min(lo, v); hi = std::max(hi, v); }
      for (int i = 0; i < n; ++i) {
        double err = std::fabs(w[k * n + i] - x[k * n + i]), lim;
        switch (F.dt) {     // half a step of the format, or a whole one at the end of the range that has one code less
          case kGGUF_Q8_0: lim = amax / 127 * 0.5 + amax / 1024; break;
          case kGGUF_Q8_K: lim = amax / 127 * 0.501; break;
          case kGGUF_Q4_0: lim = amax / 8 * 1.001 + amax / 1024; break;
          case kGGUF_Q6_K: lim = amax / 32 * 1.1; break;
          case kGGUF_Q4_K: lim = (hi - lo) / 15 * 1.1; break;
          case kGGUF_Q3_K: lim = amax / 4 * 1.3; break;
          default: lim = (hi - lo) / 3 * 1.1;
        }
        if (amax > 0) worst = std::max(worst, err / lim);
        if (err > lim) vf::fail("error", vf::cat("element ", k * n + i, " = ", x[k * n + i], " comes back as ", w[k * n + i], " (limit ", lim, ")"));
      }
      if (F.dt == kGGUF_Q8_K && amax > 0) { B c(b.begin() + k * F.bytes, b.begin() + (k + 1) * F.bytes), d = c; sums(d.data()); if (c != d) vf::fail("sums", "the sums of a q8_K block are not those of its codes"); }
      if (F.dt == kGGUF_Q8_0 || F.dt == kGGUF_Q8_K) for (int i = 0; i < n; ++i) if (b[k * F.bytes + F.bytes - (F.dt == kGGUF_Q8_K ? 32 : 0) - n + i] == 0x80) vf::fail("code", "a code of -128: the kernels cannot negate it");
    }
  };
  for (int nb = 0; nb <= 3; ++nb) for (int p = 0; p < 9; ++p) for (double sc : {1.0, 0.0625, 100.0}) R.one(g, vf::cat(nb, " blocks of pattern ", p, " times ", sc), [&] {
    std::vector<float> x(nb * n); for (int i = 0; i < nb * n; ++i) {
      double u = mix(i, p) % 2001 / 1000.0 - 1; int b = i % n;
      x[i] = sc * (p < 2 ? u : p == 2 ? 0 : p == 3 ? 0.75 : p == 4 ? -0.75 : p == 5 ? (b - n / 2) * 2.0 / n : p == 6 ? std::fabs(u) : p == 7 ? -std::fabs(u) : std::sin(b * 0.37));
    }
    verify(x);
  });
  for (int i = 0; i < n; ++i) for (double v : {1.0, -1.0, 3.0, -3.0}) for (int base = 0; base < 2; ++base)     // one element sticks out
    R.one(g, vf::cat("element ", i, " is ", v, base ? " above a ramp" : " alone"), [&] { std::vector<float> x(n, 0.f); if (base) for (int k = 0; k < n; ++k) x[k] = (k % 16) / 20.0 - 0.3; x[i] = v; verify(x); });
  if (getenv("VF_WORST")) fprintf(stderr, "%s worst %g\n", F.name, worst);
}

// ------------------------------------------------------------------------------------------------ 8-bit rows with one scale
static void bytes(Run& R, int most) {
  for (int nb = 0; nb <= most; ++nb) for (double sc : {0.25, 1.0, 0.013}) for (int p = 0; p < 3; ++p) {
    int n = nb * 32;
    R.one("bytes", vf::cat(n, " elements, scale ", sc, ", pattern ", p), [&] {
      std::vector<float> x(n); for (int i = 0; i < n; ++i) x[i] = p == 2 ? sc * (i % 2 ? 500 : -500) : sc * ((int)(mix(i, p) % 2540) / 10.0 - 127);
      Exact<float> e(x); Exact<uint8_t> o(B(n, 0x5a)); quantize_row_i8(e.p, o.p, n, sc);
      for (int i = 0; i < n; ++i) { double w = std::max(-128.0, std::min(127.0, x[i] / sc)); if (std::fabs((int8_t)o.p[i] - w) > 0.5001) vf::fail("code", vf::cat("element ", i, " = ", x[i], " becomes ", (int)(int8_t)o.p[i])); }
      Exact<float> d(std::vector<float>(n, 7e30f)); dequantize_row_i8(o.p, d.p, n, sc);
      for (int i = 0; i < n; ++i) near(d.p[i], (double)(float)sc * (int8_t)o.p[i], std::fabs(d.p[i]), 1e-6, "value", "element ", i);
      Exact<uint8_t> h(B(n * 2, 0x5a)); dequantize_row_i8_to_fp16(o.p, h.p, n, sc);
      for (int i = 0; i < n; ++i) near(h16(h.p + 2 * i), (double)(float)sc * (int8_t)o.p[i], std::fabs(d.p[i]), 1e-3, "value", "half-precision element ", i);
      Exact<float> q(std::vector<float>(n, 7e30f)); quantize_round_dequantize_row_i8(e.p, q.p, n, sc);
      for (int i = 0; i < n; ++i) if (std::fabs(q.p[i] - x[i]) > sc * 0.5001) vf::fail("round", vf::cat("element ", i, " = ", x[i], " is rounded to ", q.p[i]));
      Exact<uint8_t> u(B(n, 0)), v(B(n, 0)); double w = 0, s = 1e-9; for (int i = 0; i < n; ++i) { int a = (int)(mix(i, 5 + p) % 255) - 127, b = p == 2 ? (i % 2 ? 127 : -127) : (int)(mix(i, 9) % 255) - 127; if (p == 2) a = 127; u.p[i] = a; v.p[i] = b; w += a * b; s += std::abs(a * b); }
      float r = 7e30f; ggml::vec_dot_i8_i8(n, &r, u.p, v.p, sc, 0.5f); near(r, w * (float)sc * 0.5, s * sc, 3e-6, "value", "the dot product");
    });
  }
}

// ------------------------------------------------------------------------------------------------ the matrix kernel
static void tiles(Run& R, DataTypes at, DataTypes bt, int mmax, int nmax, int kmax) {
  auto &A = formatOf(at), &Y = formatOf(bt); std::string g = vf::cat("sgemm-", A.name, "-", Y.name); int unit = A.n == 1 ? 8 : 1;
  for (int m = 0; m <= mmax; ++m) for (int n = 0; n <= nmax && !R.full(); ++n) for (int ku = 0; ku <= kmax; ++ku) for (int pad = 0; pad < 2; ++pad) for (int nth = 1; nth <= 4; ++nth) for (int bias = 0; bias < 2; ++bias) {
    int k = ku * unit, lda = k + pad * unit, ldb = k + 2 * pad * unit, ldc = m + 3 * pad;
    R.one(g, vf::cat(m, "x", n, " of ", k, " columns, strides ", lda, "/", ldb, "/", ldc, ", ", nth, " threads", bias ? ", bias" : ""), [&] {
      B a = blocks(A, m * lda, 0, 1), b = blocks(Y, n * ldb, 1, 2); if (m) a.resize(a.size() - (lda - k) * A.bytes); if (n) b.resize(b.size() - (ldb - k) * Y.bytes);   // no padding after the last row
      std::vector<float> bv(m); for (int i = 0; i < m; ++i) bv[i] = i * 3 - 7;
      Exact<uint8_t> ea(a), eb(b); Exact<float> ebias(bv); size_t cs = n ? (size_t)(n - 1) * ldc + m : 0; std::vector<int> hits(cs); std::vector<float> c(cs, 0);
      if (!check_llamafile_sgemm(m, n, k, at, bt, kFloat32, lda, ldb, ldc)) vf::fail("refused", "the kernel is reported as missing");
      for (int t = 0; t < nth; ++t) {
        Exact<float> o(std::vector<float>(cs, 7e30f));
        if (!llamafile_sgemm(m, n, k, ea.p, lda, eb.p, ldb, o.p, ldc, t, nth, at, bt, kFloat32, bias ? ebias.p : nullptr, kFloat32)) vf::fail("refused", "the kernel is reported as present, but refuses");
        for (size_t i = 0; i < cs; ++i) if (o.p[i] != 7e30f) { hits[i]++; c[i] = o.p[i]; }
      }
      for (int j = 0; j < n; ++j) for (int i = 0; i < ldc; ++i) {
        size_t at = (size_t)j * ldc + i; if (at >= cs) continue;
        if (i >= m) { if (hits[at]) vf::fail("outside", "the gap between two columns was written to"); continue; }
        if (hits[at] != 1) vf::fail("cover", vf::cat("element (", i, ",", j, ") was computed by ", hits[at], " threads"));
        double w = bias ? bv[i] : 0, s = 1 + std::fabs(w);
        for (int x = 0; x < k; ++x) for (int y = 0; y < A.n; ++y) { double v = elem(A, a.data() + ((long)i * lda + x) * A.bytes, y) * elem(Y, b.data() + ((long)j * ldb + x) * Y.bytes, y); w += v; s += std::fabs(v); }
        near(c[at], w, s, 3e-6, "value", "element (", i, ",", j, ")");
      }
    });
  }
}
static void support(Run& R) {     // what is announced is what is served
  for (auto& a : FMT) for (auto& b : FMT) for (DataTypes c : {kFloat32, kFloat16}) for (int k = 0; k <= 17; ++k) for (int bt = 0; bt < 2; ++bt)
    R.one("sgemm-support", vf::cat(a.name, " by ", b.name, " of ", k, " columns", c == kFloat32 ? "" : " into halves", bt ? ", half-precision bias" : ""), [&] {
      bool yes = check_llamafile_sgemm(3, 2, k, a.dt, b.dt, c, k, k, 3); Exact<uint8_t> x(blocks(a, 3 * k, 0, 1)), y(blocks(b, 2 * k, 1, 1)); Exact<float> o(std::vector<float>(6, 7e30f)), bias(std::vector<float>(3, 1.f));
      bool did = llamafile_sgemm(3, 2, k, x.p, k, y.p, k, o.p, 3, 0, 1, a.dt, b.dt, c, bias.p, bt ? kFloat16 : kFloat32);
      if (did != (yes && !bt)) vf::fail("support", vf::cat("announced ", yes, ", served ", did));
      if (!did) for (int i = 0; i < 6; ++i) if (o.p[i] != 7e30f) vf::fail("outside", "a refused call wrote");
      if (k && (lanesOfType(a.dt) == 1) && check_llamafile_sgemm(3, 2, k, a.dt, b.dt, c, k - 1, k, 3)) vf::fail("support", "a row stride below the row length is accepted");
    });
}

// ------------------------------------------------------------------------------------------------ linear layers
static D counted(int n, double from) { D r; for (int i = 0; i < n; ++i) r.push_back(from + i); return r; }
static void linear(Run& R, DataTypes wt, int mmax, const I& ns, const I& ks) {
  auto& W = formatOf(wt); auto T = ggml::getRuntimeTypeTraits(wt); std::string g = vf::cat("linear-", W.name);
  for (auto& lead : std::vector<I>{{}, {1}, {2}, {3}, {2, 2}}) for (int m = 1; m <= mmax; ++m) for (int n : ns) for (int k : ks) for (int bias = 0; bias < 2; ++bias) for (int th = 1; th <= 3; th += th) {
    if (R.full()) return;
    if (lead.size() && (n > 9 || m > 3)) continue;
    I xs = lead; xs.push_back(m); xs.push_back(k); I os = lead; os.push_back(m); os.push_back(n); long rows = prod(os) / n;
    R.one(g, vf::cat(vf::seq(xs), " by ", n, "x", k, ", ", th, " threads", bias ? ", bias" : ""), [&] {
      D v(prod(xs)); for (size_t i = 0; i < v.size(); ++i) v[i] = ((int)(mix(i, 3) % 201) - 100) / 16.0;
      In x(xs, kFloat32, v); B wb = blocks(W, n * k / W.n, 2, 1);
      auto w = Tensor::empty({n, k}, wt, kCPU).alloc(); memcpy(w.ptr<uint8_t>(), wb.data(), wb.size());
      In bi(I{n}, kFloat32, counted(n, -3)); In out(os, kFloat32, D(prod(os), 7e30));
      bool ok = vf::accepted([&] { ggml::mat_mul(x.t, w, out.t, bias, bias ? &bi.t : nullptr, false, true, th); });
      if (!ok) vf::fail("refused", "a valid product was refused");
      x.untouched(); bi.untouched(); if (memcmp(w.ptr<uint8_t>(), wb.data(), wb.size())) vf::fail("input-changed", "the weights were written to");
      D wd = decode(W, wb), xd = v;
      if (W.n > 1) { auto& Y = formatOf(T.vec_dot_type); auto q = ggml::getRuntimeTypeTraits(Y.dt).from_float; Exact<uint8_t> o(B(v.size() / Y.n * Y.bytes, 0)); q(x.t.ptr<float>(), o.p, v.size()); xd = decode(Y, B(o.p, o.p + v.size() / Y.n * Y.bytes)); }
      for (long r = 0; r < rows; ++r) for (int j = 0; j < n; ++j) {
        double s = 1, e = bias ? bi.v[j] : 0; for (int i = 0; i < k; ++i) { double p = xd[r * k + i] * wd[(long)j * k + i]; e += p; s += std::fabs(p); }
        if (W.dmin >= 0) s += 100 * k;
        near(out.t.ptr<float>()[r * n + j], e, s, 4e-6, "value", "row ", r, " column ", j);
      }
    });
  }
}
// both sides batched (attention scores)
static void batched(Run& R) {
  for (auto& lead : std::vector<I>{{2}, {3}, {1}, {2, 2}}) for (int m : {1, 2, 4, 5}) for (int n : {1, 3, 4, 17}) for (int k : {1, 3, 8, 9, 16}) for (int th = 1; th <= 4; th *= 2) {
    I xs = lead; xs.push_back(m); xs.push_back(k); I ws = lead; ws.push_back(n); ws.push_back(k); I os = lead; os.push_back(m); os.push_back(n);
    R.one("batched", vf::cat(vf::seq(xs), " by ", vf::seq(ws), ", ", th, " threads"), [&] {
      D v(prod(xs)), u(prod(ws)); for (size_t i = 0; i < v.size(); ++i) v[i] = (int)(mix(i, 3) % 21) - 10; for (size_t i = 0; i < u.size(); ++i) u[i] = (int)(mix(i, 8) % 21) - 10;
      In x(xs, kFloat32, v), w(ws, kFloat32, u), out(os, kFloat32, D(prod(os), 7e30));
      if (!vf::accepted([&] { ggml::mat_mul(x.t, w.t, out.t, false, nullptr, false, true, th); })) vf::fail("refused", "a valid product was refused");
      x.untouched(); w.untouched(); long nb = prod(lead);
      for (long b = 0; b < nb; ++b) for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { double e = 0; for (int l = 0; l < k; ++l) e += v[(b * m + i) * k + l] * u[(b * n + j) * k + l]; near(out.t.ptr<float>()[(b * m + i) * n + j], e, 1 + std::fabs(e), 1e-6, "value", "batch ", b, " row ", i, " column ", j); }
    });
  }
}

void vf_job(const std::string& name, const Opt& o, vf::Stats& st) {
  Run R{{st}}; auto at = [&](const char* k, long d) { auto i = o.find(k); return i == o.end() ? d : i->second; };
  auto dt = (DataTypes)at("dt", 0); int step = at("step", 1);
  switch (at("kind", 0)) {
    case 0: decoding(R, formatOf(dt), step); break;
    case 1: dots(R, formatOf(dt), step); break;
    case 2: encoding(R, formatOf(dt)); break;
    case 3: bytes(R, at("n", 4)); break;
    case 4: tiles(R, dt, (DataTypes)at("bt", 0), at("m", 9), at("nn", 9), at("k", 2)); break;
    case 5: support(R); break;
    case 6: { bool K = formatOf(dt).n == 256; bool t = at("thorough", 0); linear(R, dt, t ? 6 : 5, t ? I{1, 2, 3, 4, 5, 8, 9, 16, 17, 33} : I{1, 3, 4, 9, 17}, formatOf(dt).n == 1 ? I{1, 4, 7, 8, 9, 16, 40} : K ? I{256, 512} : I{32, 64, 96}); break; }
    case 7: batched(R); break;
  }
}
