// C16: images and audio come out of preprocessing as their definition says.
#define VF_MAIN
#include "ops.hpp"
#include <filesystem>
#include <fstream>
#include <set>
#include "mllm/core/aops/ElewiseOps.hpp"
#include "mllm/backends/cpu/ops/PermuteOp.hpp"
#include "mllm/backends/cpu/ops/CloneOp.hpp"
#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
#include "mllm/preprocessor/visual/ImageTransform.hpp"
#include "mllm/preprocessor/audio/Audio.hpp"
namespace mllm::audio { void writeWAV(const std::vector<float>&, int, int, const std::string&); }
namespace fs = std::filesystem;

// Division by one value: the vectorised kernels of the original need a library that is not installed.
struct DivStandIn : BaseOp {
  DivStandIn() : BaseOp(OpTypes::kDiv) {}
  void reshape(const std::vector<Tensor>& in, std::vector<Tensor>& out) override { out.push_back(Tensor::empty(in[0].shape(), in[0].dtype(), in[0].device())); }
  void forward(const std::vector<Tensor>& in, std::vector<Tensor>& out) override {
    if (in[1].numel() != 1) vf::fail("harness", "division by a tensor");
    auto s = in[0].shape(); float d = *in[1].ptr<float>();
    for (long i = 0; i < prod(s); ++i) { auto x = unravel(i, s); set(out[0], x, (float)get(in[0], x) / d); }
  }
};
struct DivFactory : TypedOpFactory<OpTypes::kDiv, aops::DivOpOptions> { std::shared_ptr<BaseOp> createOpImpl(const aops::DivOpOptions&) override { return std::make_shared<DivStandIn>(); } };

static std::string tmp() { static std::string d = [] { std::string p = std::string(getenv("VF_TMP")) + "/c16." + std::to_string(getpid()); fs::create_directories(p); return p; }(); return d; }

// ------------------------------------------------------------------ images
using B = std::vector<uint8_t>;
struct Pic { int w = 0, h = 0; B px; uint8_t at(int x, int y, int c) const { return px[(y * w + x) * 3 + c]; } };
static Pic picture(int w, int h, int kind) {           // 0 every value different   1 one colour   2 a slope
  Pic p{w, h, B(w * h * 3)}; uint32_t z = 12345 + w * 7 + h;
  for (int i = 0; i < w * h * 3; ++i) { z = z * 1664525 + 1013904223; p.px[i] = kind == 0 ? (w * h * 3 < 200 ? 3 + i * 250 / (w * h * 3) : z >> 24) : kind == 1 ? 40 + 70 * (i % 3) : (i / 3) % w * 200 / w; }
  return p;
}
static Image load(const Pic& p) {                      // by way of an uncompressed file written here
  int row = (p.w * 3 + 3) / 4 * 4; B f(54 + row * p.h, 0);
  auto u32 = [&](int o, uint32_t v) { memcpy(&f[o], &v, 4); };
  f[0] = 'B'; f[1] = 'M'; u32(2, f.size()); u32(10, 54); u32(14, 40); u32(18, p.w); u32(22, p.h); f[26] = 1; f[28] = 24; u32(34, row * p.h);
  for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) for (int c = 0; c < 3; ++c) f[54 + (p.h - 1 - y) * row + x * 3 + 2 - c] = p.at(x, y, c);
  std::string n = tmp() + "/in.bmp"; std::ofstream(n, std::ios::binary).write((char*)f.data(), f.size());
  return Image::open(n);
}
static Pic dump(Image i) { if (i.c() != 3) vf::fail("channels", "an image without three channels"); if (!i.ptr()) vf::fail("no-pixels", "an image without pixels"); return {i.w(), i.h(), B(i.ptr(), i.ptr() + (size_t)i.w() * i.h() * 3)}; }
static void same(const Pic& got, const Pic& want, const char* what, int tol = 0) {
  if (got.w != want.w || got.h != want.h) vf::fail(vf::cat(what, ":size"), vf::cat("size ", got.w, "x", got.h, " instead of ", want.w, "x", want.h));
  for (int y = 0; y < got.h; ++y) for (int x = 0; x < got.w; ++x) for (int c = 0; c < 3; ++c)
    if (std::abs(got.at(x, y, c) - want.at(x, y, c)) > tol) vf::fail(vf::cat(what, ":pixel"), vf::cat("pixel ", x, ",", y, " channel ", c, " is ", (int)got.at(x, y, c), " instead of ", (int)want.at(x, y, c)));
}
static Pic cropped(const Pic& p, int l, int u, int r, int d) {
  Pic o{r - l, d - u, B((r - l) * (d - u) * 3, 0)};
  for (int y = u; y < d; ++y) for (int x = l; x < r; ++x) if (x >= 0 && x < p.w && y >= 0 && y < p.h) for (int c = 0; c < 3; ++c) o.px[((y - u) * o.w + x - l) * 3 + c] = p.at(x, y, c);
  return o;
}
// where a window of n lies in the middle of m (either choice when the rest is odd)
static bool middle(int off, int n, int m) { return std::abs(off - (m - n - off)) <= 1; }

static void crops(Run& R, int mx) {
  for (int w = 1; w <= mx; ++w) for (int h = 1; h <= mx; ++h) {
    Pic p = picture(w, h, 0); Image im = load(p);
    R.one("open", vf::cat(w, "x", h), [&] { same(dump(im), p, "open"); });
    for (int l = -2; l <= w + 1; ++l) for (int r = l + 1; r <= w + 3; ++r) for (int u = -2; u <= h + 1; ++u) for (int d = u + 1; d <= h + 3; ++d)
      R.one("crop", vf::cat("crop of ", w, "x", h, " to ", l, ",", u, " - ", r, ",", d), [&] {
        Image o; Run::must(vf::accepted([&] { o = im.crop(l, u, r, d); }), true, false);
        same(dump(o), cropped(p, l, u, r, d), "crop"); same(dump(im), p, "crop:input-changed");
        if (l == -1 && u == 0) same(dump(o.crop(1, 0, r - l + 1, d - u)), cropped(cropped(p, l, u, r, d), 1, 0, r - l + 1, d - u), "crop-of-crop");
      });
    for (int l = 0; l <= 1; ++l) for (int r = -1; r <= 1; ++r) for (int u = 0; u <= 1; ++u) for (int d = -1; d <= 1; ++d) if (r <= l || d <= u)
      R.one("crop-nothing", vf::cat("crop of ", w, "x", h, " to ", l, ",", u, " - ", r, ",", d), [&] { Run::must(vf::accepted([&] { im.crop(l, u, r, d); }), false, true); });
    for (int ch = 1; ch <= mx + 3; ++ch) for (int cw = 1; cw <= mx + 3; ++cw)
      R.one("center-crop", vf::cat("centre crop of ", w, "x", h, " to ", cw, "x", ch), [&] {
        Pic o = dump(CenterCrop(ch, cw).apply(im)); bool ok = false;
        if (o.w != cw || o.h != ch) vf::fail("center-crop:size", vf::cat("size ", o.w, "x", o.h));
        for (int l = -mx - 3; l <= mx; ++l) for (int u = -mx - 3; u <= mx; ++u) ok |= middle(l, cw, w) && middle(u, ch, h) && cropped(p, l, u, l + cw, u + ch).px == o.px;
        if (!ok) vf::fail("center-crop:where", "not the centre of the image");
        if (ch == cw) same(dump(CenterCrop(ch).apply(im)), o, "center-crop-square");
        same(dump(im), p, "center-crop:input-changed");
      });
  }
}

static void pads(Run& R, int mx) {
  for (int w = 1; w <= mx; ++w) for (int h = 1; h <= mx; ++h) for (int kind = 0; kind < 2; ++kind) {
    Pic p = picture(w, h, kind); Image im = load(p);
    for (int tw = 1; tw <= mx + 2; ++tw) for (int th = 1; th <= mx + 2; ++th)
      R.one("pad", vf::cat("pad of ", w, "x", h, " to ", tw, "x", th, " kind ", kind), [&] {
        Image oi; Run::must(vf::accepted([&] { oi = im.pad(tw, th, 1, 254, 7); }), true, false);
        Pic o = dump(oi); if (o.w != tw || o.h != th) vf::fail("pad:size", vf::cat("size ", o.w, "x", o.h));
        // the largest size of the same proportions that fits
        bool wide = (long)tw * h <= (long)th * w; std::vector<std::pair<int, int>> sizes;
        auto near = [](long a, long b) { std::vector<int> r; long f = a / b; if (2 * (a % b) <= b) r.push_back(f); if (2 * (a % b) >= b) r.push_back(f + 1); for (auto& x : r) x = std::max(1, x); return r; };
        if (wide) for (int nh : near((long)h * tw, w)) sizes.push_back({tw, nh}); else for (int nw : near((long)w * th, h)) sizes.push_back({nw, th});
        bool ok = false;
        for (auto [nw, nh] : sizes) for (int x0 = 0; x0 + nw <= tw; ++x0) for (int y0 = 0; y0 + nh <= th; ++y0) if (middle(x0, nw, tw) && middle(y0, nh, th)) {
          Pic in = kind == 1 ? Pic{nw, nh, B()} : dump(im.resize(nw, nh, "bicubic")); bool e = true;
          for (int y = 0; y < th && e; ++y) for (int x = 0; x < tw && e; ++x) for (int c = 0; c < 3; ++c) {
            bool inside = x >= x0 && x < x0 + nw && y >= y0 && y < y0 + nh;
            int want = !inside ? (c == 0 ? 1 : c == 1 ? 254 : 7) : kind == 1 ? p.px[c] : in.at(x - x0, y - y0, c);
            if (std::abs(o.at(x, y, c) - want) > (inside && kind == 1)) e = false;
          }
          ok |= e;
        }
        if (!ok) vf::fail("pad:content", "not the image, scaled to fit, in the middle of the colour");
        same(dump(im), p, "pad:input-changed");
      });
  }
}

static Pic turned(const Pic& p, int how) {       // 1 left-right  2 upside down  3 transposed  4 channels rotated
  Pic o = p; if (how == 3) std::swap(o.w, o.h);
  for (int y = 0; y < o.h; ++y) for (int x = 0; x < o.w; ++x) for (int c = 0; c < 3; ++c)
    o.px[(y * o.w + x) * 3 + c] = how == 1 ? p.at(p.w - 1 - x, y, c) : how == 2 ? p.at(x, p.h - 1 - y, c) : how == 3 ? p.at(y, x, c) : p.at(x, y, (c + 1) % 3);
  return o;
}
static void resizes(Run& R, int mx) {
  for (const char* method : {"bilinear", "bicubic"}) for (int w = 1; w <= mx; ++w) for (int h = 1; h <= mx; ++h) {
    Pic p[3]; Image im[3], tu[5]; for (int k = 0; k < 3; ++k) { p[k] = picture(w, h, k); im[k] = load(p[k]); }
    for (int k = 1; k <= 4; ++k) tu[k] = load(turned(p[0], k));
    for (int nw = 1; nw <= mx + 2; ++nw) for (int nh = 1; nh <= mx + 2; ++nh)
      R.one("resize", vf::cat(method, " resize of ", w, "x", h, " to ", nw, "x", nh), [&] {
        Image o; Run::must(vf::accepted([&] { o = im[0].resize(nw, nh, method); }), true, false);
        Pic a = dump(o); if (a.w != nw || a.h != nh) vf::fail("resize:size", vf::cat("size ", a.w, "x", a.h));
        same(dump(im[0]), p[0], "resize:input-changed");
        Pic one{nw, nh, B(nw * nh * 3)}; for (int i = 0; i < nw * nh * 3; ++i) one.px[i] = p[1].px[i % 3];
        same(dump(im[1].resize(nw, nh, method)), one, "resize:one-colour", 1);
        for (int k = 1; k <= 4; ++k) same(dump(k == 3 ? tu[k].resize(nh, nw, method) : tu[k].resize(nw, nh, method)), turned(a, k), "resize:symmetry", 1);
        if (nw == w && nh == h && method[2] == 'l') same(a, p[0], "resize:same-size");
        if (method[2] == 'l') { same(dump(Resize(nh, nw).apply(im[0])), a, "resize:transform"); same(dump(im[0].resize(nw, nh)), a, "resize:default"); }
      });
    if (method[2] == 'l') for (int s = 1; s <= mx + 3; ++s)
      R.one("resize-shorter", vf::cat("shorter side of ", w, "x", h, " to ", s), [&] {
        Image o; Run::must(vf::accepted([&] { o = Resize(s).apply(im[0]); }), true, false);
        Pic a = dump(o); if (std::min(a.w, a.h) != s) vf::fail("resize-shorter:size", vf::cat("size ", a.w, "x", a.h));
        int lng = w >= h ? a.w : a.h; long num = (long)std::max(w, h) * s, den = std::min(w, h);
        if (w >= h ? a.h != s : a.w != s) vf::fail("resize-shorter:side", vf::cat("size ", a.w, "x", a.h));
        if (std::abs(2 * (lng * den - num)) > 2 * den - 1) vf::fail("resize-shorter:proportions", vf::cat("size ", a.w, "x", a.h));
        same(a, dump(im[0].resize(a.w, a.h)), "resize-shorter");
      });
  }
  for (const char* bad : {"", "nearest", "Bilinear"}) R.one("resize-method", bad, [&] { Image im = load(picture(2, 2, 0)); Run::must(vf::accepted([&] { im.resize(3, 3, bad); }), false, true); });
}

static void close_to(const Tensor& t, const I& shape, const std::function<double(const I&)>& f, const char* what, double tol = 1e-5) {
  if (t.shape() != shape) vf::fail(vf::cat(what, ":shape"), vf::cat("shape ", vf::seq(t.shape()), " instead of ", vf::seq(shape)));
  if (t.dtype() != kFloat32) vf::fail(vf::cat(what, ":dtype"), "not float");
  for (long i = 0; i < prod(shape); ++i) { auto x = unravel(i, shape); double g = get(t, x), e = f(x); if (!(std::abs(g - e) <= tol * std::max(1.0, std::abs(e)))) vf::fail(vf::cat(what, ":value"), vf::cat("element ", vf::seq(x), " is ", g, " instead of ", e)); }
}
static void tensors(Run& R, int mx) {
  for (int w = 1; w <= mx; ++w) for (int h = 1; h <= mx; ++h) {
    Pic p = picture(w, h, 0); Image im = load(p);
    R.one("tensor", vf::cat(w, "x", h), [&] {
      Tensor t = im.tensor(); close_to(t, {h, w, 3}, [&](const I& x) { return p.at(x[1], x[0], x[2]); }, "tensor", 0);
      set(t, {0, 0, 0}, 77); same(dump(im), p, "tensor:shared");
      close_to(ToTensor().apply(im), {3, h, w}, [&](const I& x) { return p.at(x[2], x[1], x[0]) / 255.0; }, "to-tensor");
    });
    std::vector<float> mean{0.5f, 0.25f, -1.f}, sd{0.5f, 2.f, 0.125f};
    auto norm = [&](double v, int c) { return (v - mean[c]) / sd[c]; };
    for (int l = 0; l < 4; ++l)
      R.one("normalize", vf::cat(w, "x", h, " laid out ", l), [&] {
        In in({3, h, w}, kFloat32, labels({3, h, w}), l); Tensor o = Tensor::nil();
        Run::must(vf::accepted([&] { o = Normalize(mean, sd).apply(in.t); }), true, false);
        close_to(o, {3, h, w}, [&](const I& x) { return norm(in.v[ravel(x, {3, h, w})], x[0]); }, "normalize");
        in.untouched();
        ComposeTensorTransforms two({std::make_shared<Normalize>(mean, sd), std::make_shared<Normalize>(sd, mean)});
        close_to(two(in.t), {3, h, w}, [&](const I& x) { return (norm(in.v[ravel(x, {3, h, w})], x[0]) - sd[x[0]]) / mean[x[0]]; }, "normalize-twice");
      });
    R.one("normalize-channels", vf::cat(w, "x", h), [&] {
      In in({2, h, w}, kFloat32, labels({2, h, w})); Run::must(vf::accepted([&] { (void)Normalize(mean, sd).apply(in.t); }), false, true);
      In in4({1, 3, h, w}, kFloat32, labels({1, 3, h, w})); Run::must(vf::accepted([&] { (void)Normalize(mean, sd).apply(in4.t); }), false, true);
      Run::must(vf::accepted([&] { Normalize(mean, {1.f, 2.f}); }), false, true);
    });
    std::optional<int> none; std::optional<std::pair<int, int>> nohw; std::optional<std::vector<float>> nov;
    for (int sh = 0; sh < 2; ++sh) for (int hw = 0; hw < 2; ++hw) for (int cc = 0; cc < 3; ++cc) for (int nm = 0; nm < 4; ++nm)
      R.one("pipeline", vf::cat(w, "x", h, " shorter ", sh, " size ", hw, " crop ", cc, " normalise ", nm), [&] {
        Image a = im; if (sh) a = Resize(3).apply(a); else if (hw) a = a.resize(4, 2); if (cc) a = cc == 1 ? CenterCrop(2, 3).apply(a) : CenterCrop(4).apply(a);
        Pic q = dump(a); bool n = nm == 3;
        auto want = [&](const I& x) { double v = q.at(x[2], x[1], x[0]) / 255.0; return n ? norm(v, x[0]) : v; };
        auto M = nm & 1 ? std::optional(mean) : nov, S = nm & 2 ? std::optional(sd) : nov;
        BasicImageTransform t(sh ? std::optional(3) : none, hw ? std::optional(std::make_pair(2, 4)) : nohw, cc == 1 ? std::optional(std::make_pair(2, 3)) : cc ? std::optional(std::make_pair(4, 4)) : nohw, M, S);
        close_to(t(im), {3, q.h, q.w}, want, "pipeline"); close_to(t(im), {3, q.h, q.w}, want, "pipeline-again");
        if (!hw && cc != 1) { BasicImageTransform u(sh ? std::optional(3) : none, cc ? std::optional(4) : none, M, S); close_to(u(im), {3, q.h, q.w}, want, "pipeline-square"); }
        same(dump(im), p, "pipeline:input-changed");
      });
  }
}

static void files(Run& R, int mx) {
  for (int w = 1; w <= mx; ++w) for (int h = 1; h <= mx; ++h) {
    for (int kind = 0; kind < 3; ++kind) for (const char* ext : {"png", "PNG", "bmp", "Bmp", "jpg", "jpeg"})
      R.one("save", vf::cat(w, "x", h, " kind ", kind, " as ", ext), [&] {
        bool lossy = tolower(ext[0]) == 'j'; if (lossy && kind == 0) return;
        Pic p = picture(w, h, kind); Image im = load(p); std::string n = tmp() + "/a.b." + ext; fs::remove(n);
        im.save(n); same(dump(Image::open(n)), p, lossy ? "save-lossy" : "save", lossy ? 12 : 0); same(dump(im), p, "save:input-changed");
      });
    for (int c = 1; c <= 4; ++c)
      R.one("open-channels", vf::cat(w, "x", h, " with ", c, " channels"), [&] {
        B px(w * h * c); for (size_t i = 0; i < px.size(); ++i) px[i] = 5 + i * 37;
        std::string n = tmp() + "/c.png"; stbi_write_png(n.c_str(), w, h, c, px.data(), w * c);
        Pic want{w, h, B(w * h * 3)}; for (int i = 0; i < w * h * 3; ++i) want.px[i] = px[i / 3 * c + (c >= 3 ? i % 3 : 0)];
        same(dump(Image::open(n)), want, "open-channels");
      });
  }
  for (const char* n : {"/x.gif", "/x", "/png", "/x.png.txt"}) R.one("save-unknown", n, [&] { Image im = load(picture(2, 2, 0)); Run::must(vf::accepted([&] { im.save(tmp() + n); }), false, true); });
  R.one("open-missing", "", [&] { Run::must(vf::accepted([&] { Image::open(tmp() + "/not-there.png"); }), false, true); });
  for (const char* ext : {"png", "bmp"}) {
    Image im = load(picture(3, 2, 0)); std::string n = tmp() + "/whole." + ext, m = tmp() + "/part." + ext; im.save(n);
    std::ifstream f(n, std::ios::binary); std::string all((std::istreambuf_iterator<char>(f)), {});
    for (size_t k = 0; k < all.size(); ++k)
      R.one("open-cut", vf::cat(ext, " cut after ", k, " of ", all.size()), [&] {
        { std::ofstream(m, std::ios::binary).write(all.data(), k); }
        Image o; if (vf::accepted([&] { o = Image::open(m); })) dump(o);
        if (k < 2) Run::must(vf::accepted([&] { Image::open(m); }), false, true);
      });
  }
}

// ------------------------------------------------------------------ audio
struct Wav { int channels = 1, rate = 16000; std::vector<int> v; int n() const { return v.size() / channels; } };
static void put(std::string& s, uint32_t v, int n) { for (int i = 0; i < n; ++i) s += (char)(v >> (8 * i)); }
static std::string file_of(const Wav& a, int fmt = 16, const std::vector<int>& extra = {}, int bits = 16) {
  std::string s = "RIFF----WAVEfmt "; put(s, fmt, 4); put(s, 1, 2); put(s, a.channels, 2); put(s, a.rate, 4); put(s, a.rate * a.channels * bits / 8, 4); put(s, a.channels * bits / 8, 2); put(s, bits, 2);
  for (int i = 16; i < fmt; ++i) s += i == 16 ? (char)(fmt - 18) : (char)0;
  for (int e : extra) { s += "LIST"; put(s, e, 4); s += std::string(e, 'd'); if (e & 1) s += '\0'; }
  s += "data"; put(s, a.v.size() * bits / 8, 4); for (int x : a.v) put(s, x, bits / 8);
  uint32_t n = s.size() - 8; memcpy(&s[4], &n, 4); return s;
}
static std::string store(const Wav& a, const char* name = "in.wav", int fmt = 16, const std::vector<int>& extra = {}) { auto s = file_of(a, fmt, extra); std::string n = tmp() + "/" + name; std::ofstream(n, std::ios::binary).write(s.data(), s.size()); return n; }
static double gain() {     // what full scale becomes: one factor for every sample of every file
  static double g = [] { auto r = audio::readWAV(store({1, 16000, {16384}}), 16000); if (r.size() != 1) vf::fail("read:length", "one sample"); return r[0] / 16384; }();
  if (!(g > 1 / 33000. && g < 1 / 31000.)) vf::fail("read:scale", vf::cat("factor ", g)); return g;
}
static D mono(const Wav& a) { D r(a.n(), 0); for (int i = 0; i < a.n(); ++i) { for (int c = 0; c < a.channels; ++c) r[i] += a.v[i * a.channels + c]; r[i] *= gain() / a.channels; } return r; }
static D resampled(const D& x, int from, int to) {      // windowed sinc, with the cut-off just below the lower of the two rates
  if (from == to) return x;
  int g = std::gcd(from, to); double o = from / g, n = to / g, base = std::min(o, n) * 0.99; long len = (x.size() * (long)(to / g) + from / g - 1) / (from / g); D y(len, 0);
  for (long i = 0; i < len; ++i) for (size_t k = 0; k < x.size(); ++k) {
    double t = (k / o - i / n) * base; if (std::abs(t) >= 6) continue;
    double w = cos(t * M_PI / 12); y[i] += x[k] * (t == 0 ? 1 : sin(t * M_PI) / (t * M_PI)) * w * w * base / o;
  }
  return y;
}
static void near(const std::vector<float>& g, const D& e, const char* what, double tol) {
  if (g.size() != e.size()) vf::fail(vf::cat(what, ":length"), vf::cat(g.size(), " samples instead of ", e.size()));
  for (size_t i = 0; i < g.size(); ++i) if (!(std::abs(g[i] - e[i]) <= tol)) vf::fail(vf::cat(what, ":sample"), vf::cat("sample ", i, " is ", g[i], " instead of ", e[i]));
}
static void reads(Run& R) {
  for (int c = 1; c <= 3; ++c) for (int n = 0; n <= 5; ++n) for (int fmt : {16, 18, 40}) for (int e = 0; e < 6; ++e) for (int rate : {8000, 16000})
    R.one("read", vf::cat(c, " channels ", n, " samples, description of ", fmt, " bytes, other chunks ", e, " rate ", rate), [&] {
      std::vector<std::vector<int>> ex{{}, {4}, {3}, {0}, {2, 6}, {1, 5}}; Wav a{c, rate, {}}; for (int i = 0; i < n * c; ++i) a.v.push_back(i == 0 ? -32768 : i == 1 ? 32767 : (i * 7919) % 60000 - 30000);
      near(audio::readWAV(store(a, "in.wav", fmt, ex[e]), rate), mono(a), "read", 2e-6);
    });
  R.one("read-missing", "", [&] { Run::must(vf::accepted([&] { audio::readWAV(tmp() + "/not-there.wav"); }), false, true); Run::must(vf::accepted([&] { audio::processWAV({tmp() + "/not-there.wav"}); }), false, true); });
  for (int c = 1; c <= 3; ++c) for (int n = 0; n <= 4; ++n) for (int rate : {8000, 44100})
    R.one("write", vf::cat(c, " channels ", n, " samples rate ", rate), [&] {
      Wav a{c, rate, {}}; std::vector<float> d; for (int i = 0; i < n * c; ++i) { a.v.push_back(i == 0 ? -32768 : i == 1 ? 32767 : i * 37 - 50); d.push_back(a.v.back()); }
      std::string f = tmp() + "/out.wav"; audio::writeWAV(d, rate, c, f);
      std::ifstream in(f, std::ios::binary); std::string s((std::istreambuf_iterator<char>(in)), {});
      if (s != file_of(a)) vf::fail("write:bytes", "not the file that holds these samples");
      near(audio::readWAV(f, rate), mono(a), "write-read", 2e-6);
    });
}
static void rates(Run& R, int from, int to, int mx) {
  for (int c = 1; c <= 2; ++c) for (int n = 1; n <= mx; ++n) for (int k = -1; k < n * c; ++k)       // the operation is linear: every unit sample, and one mixture
    R.one("resample", vf::cat(c, " channels ", n, " samples ", from, " to ", to, " unit ", k), [&] {
      Wav a{c, from, std::vector<int>(n * c, 0)}; for (int i = 0; i < n * c; ++i) a.v[i] = k < 0 ? (i * 7919 + 20000) % 60000 - 30000 : k == i ? 30000 : 0;
      near(audio::readWAV(store(a), to), resampled(mono(a), from, to), "resample", 1e-3);
    });
}
// The features of a stretch of sound, in double precision: mean removed, pre-emphasis, window, power spectrum, mel bands, logarithm.
static void fft(std::vector<std::complex<double>>& a) {
  int n = a.size(); if (n == 1) return; std::vector<std::complex<double>> e(n / 2), o(n / 2);
  for (int i = 0; i < n / 2; ++i) { e[i] = a[2 * i]; o[i] = a[2 * i + 1]; }
  fft(e); fft(o); for (int i = 0; i < n / 2; ++i) { auto t = std::polar(1.0, -2 * M_PI * i / n) * o[i]; a[i] = e[i] + t; a[i + n / 2] = e[i] - t; }
}
static std::vector<D> features(const D& x) {            // 128 x 204
  const int L = 400, S = 160, F = 512; auto mel = [](double f) { return 1127 * log(1 + f / 700); };
  std::vector<D> r(128, D(204, (0 + 4.268) / 9.138)); if ((int)x.size() < L) return r;
  int n = 1 + (x.size() - L) / S; double lo = mel(20), hi = mel(8000), st = (hi - lo) / 129;
  for (int i = 0; i < std::min(n, 204); ++i) {
    D d(x.begin() + i * S, x.begin() + i * S + L); double m = 0; for (double v : d) m += v; m /= L; for (auto& v : d) v -= m;
    for (int j = L - 1; j > 0; --j) d[j] -= 0.97 * d[j - 1]; d[0] -= 0.97 * d[0];
    std::vector<std::complex<double>> a(F); for (int j = 0; j < L; ++j) a[j] = d[j] * pow(0.5 - 0.5 * cos(2 * M_PI * j / (L - 1)), 0.85);
    fft(a);
    for (int b = 0; b < 128; ++b) {
      double e = 0; for (int k = 0; k < F / 2; ++k) { double q = (mel(16000.0 * k / F) - lo) / st - b; if (q > 0 && q < 2) e += (q <= 1 ? q : 2 - q) * std::norm(a[k]); }
      r[b][i] = (log(std::max(e, (double)std::numeric_limits<float>::epsilon())) + 4.268) / 9.138;
    }
  }
  return r;
}
static Wav noise(int c, int n, int rate = 16000) { Wav a{c, rate, {}}; uint32_t z = 99 + n; for (int i = 0; i < n * c; ++i) { z = z * 1664525 + 1013904223; a.v.push_back((int)(z >> 16) % 40000 - 20000); } return a; }
using Clips = std::vector<std::vector<std::vector<float>>>;
static void check_clips(const Clips& got, const Wav& a, const char* what, bool values) {
  if (got.size() != 3) vf::fail(vf::cat(what, ":count"), vf::cat(got.size(), " clips"));
  D x(a.n()); for (int i = 0; i < a.n(); ++i) x[i] = a.v[i * a.channels] * gain();
  x = resampled(x, a.rate, 16000); long n = x.size();
  for (int k = 0; k < 3; ++k) {
    long from = std::max(0l, n - 32000) * k / 2, to = std::min(n, from + 32000);
    if (got[k].size() != 128) vf::fail(vf::cat(what, ":shape"), vf::cat(got[k].size(), " bands"));
    auto e = features(values ? D(x.begin() + from, x.begin() + to) : D());
    for (int b = 0; b < 128; ++b) {
      if (got[k][b].size() != 204) vf::fail(vf::cat(what, ":shape"), vf::cat(got[k][b].size(), " frames"));
      if (values) for (int f = 0; f < 204; ++f) if (!(std::abs(got[k][b][f] - e[b][f]) <= 0.02)) vf::fail(vf::cat(what, ":value"), vf::cat("clip ", k, " band ", b, " frame ", f, " is ", got[k][b][f], " instead of ", e[b][f]));
    }
  }
}
static void process(Run& R, int part, bool deep) {
  static const int ns[] = {0, 1, 399, 400, 401, 5000, 16000, 31999, 32000, 32001, 33333, 48000, 64001, 160000, 166219, 200003, 320001};
  std::vector<int> mine; int i = 0; for (int n : ns) if (part == 9 || i++ % 4 == part) mine.push_back(n);
  vf::hang_s = 120;
  for (int c = 1; c <= 2; ++c) for (int n : mine) if (deep || n <= 200003)
    R.one("process", vf::cat(c, " channels ", n, " samples"), [&] { Wav a = noise(c, n); auto r = audio::processWAV({store(a)}, 16000); if (r.size() != 1) vf::fail("process:count", "one result per file"); check_clips(r[0], a, "process", true); });
  for (int n : {4, 2500, 16002, 20001}) if (part == n % 4 || part == 9)
    R.one("process-rate", vf::cat(n, " samples at 8 kHz"), [&] { Wav a = noise(1, n, 8000); auto r = audio::processWAV({store(a)}, 16000); check_clips(r[0], a, "process-rate", true); });
}
static void many(Run& R) {                                  // what a file becomes does not depend on what was processed before
  vf::hang_s = 120; std::vector<Wav> w{noise(1, 3000), noise(2, 32500), noise(1, 40000), noise(1, 0)}; std::vector<std::string> f; std::vector<Clips> alone; char nm[] = "0.wav";
  for (auto& a : w) { f.push_back(store(a, nm)); nm[0]++; alone.push_back(audio::processWAV({f.back()}, 16000)[0]); }
  for (int len = 0; len <= 3; ++len) { int t = 1; for (int i = 0; i < len; ++i) t *= 4;
    for (int k = 0; k < t; ++k) R.one("process-many", vf::cat("files ", k, " of ", t), [&] {
      std::vector<std::string> in; std::vector<int> id; for (int i = 0, z = k; i < len; ++i, z /= 4) { id.push_back(z % 4); in.push_back(f[z % 4]); }
      auto r = audio::processWAV(in, 16000); if (r.size() != id.size()) vf::fail("many:count", vf::cat(r.size(), " results"));
      for (size_t i = 0; i < id.size(); ++i) if (r[i] != alone[id[i]]) vf::fail("many:differs", vf::cat("result ", i, " depends on the other files"));
    }); }
}

void vf_job(const std::string& name, const Opt& o, vf::Stats& st) {
  Run R{{st}}; auto& X = R.X; X.reg<DivFactory>(); X.reg<cpu::CPUPermuteOpFactory>(); X.reg<cpu::CPUCloneOpFactory>(); X.reg<cpu::CPUContiguousOpFactory>();
  int k = o.at("kind"), mx = o.count("mx") ? o.at("mx") : 4;
  if (k == 0) crops(R, mx); else if (k == 1) pads(R, mx); else if (k == 2) resizes(R, mx); else if (k == 3) tensors(R, mx); else if (k == 4) files(R, mx);
  else if (k == 5) reads(R); else if (k == 6) rates(R, o.at("from"), o.at("to"), mx); else if (k == 7) process(R, o.at("part"), o.at("deep")); else many(R);
  std::error_code ec; fs::remove_all(tmp(), ec);
}
