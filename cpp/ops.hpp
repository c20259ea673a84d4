// Shared by the checks of CPU operators: tensors in several memory layouts, element access, enumeration of shapes.
#pragma once
#include "vf.hpp"
#include <algorithm>
#include <cmath>
#include <numeric>
#include "mllm/core/SlicePrimitives.hpp"
#include "mllm/core/Tensor.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/utils/Log.hpp"
mllm::LogLevel mllm::Logger::level_ = (mllm::LogLevel)9;
using namespace mllm;
using Opt = std::map<std::string, long>;
using I = std::vector<int32_t>;
using D = std::vector<double>;
static const double NEG = -INFINITY;

extern "C" void __real_exit(int);
extern "C" void __wrap_exit(int c) { if (vf::refuse_to) longjmp(*vf::refuse_to, 1); __real_exit(c); }

static long prod(const I& s) { long n = 1; for (auto x : s) n *= x; return n; }
static I unravel(long i, const I& s) { I r(s.size()); for (int d = (int)s.size() - 1; d >= 0; --d) { r[d] = i % s[d]; i /= s[d]; } return r; }
static long ravel(const I& x, const I& s) { long r = 0; for (size_t d = 0; d < s.size(); ++d) r = r * s[d] + x[d]; return r; }

static double get(const Tensor& t, const I& x) {
  switch (t.dtype()) {
    case kFloat32: return *t.coffsettedPtr<float>(x);
    case kFloat16: return (float)*t.coffsettedPtr<mllm_fp16_t>(x);
    case kInt32: return *t.coffsettedPtr<int32_t>(x);
    case kInt16: return *t.coffsettedPtr<int16_t>(x);
    case kInt8: return *t.coffsettedPtr<int8_t>(x);
    case kInt64: return *t.coffsettedPtr<int64_t>(x);
    default: vf::fail("harness", "element type");
  }
}
static void set(Tensor& t, const I& x, double v) {
  switch (t.dtype()) {
    case kFloat32: *t.offsettedPtr<float>(x) = v; break;
    case kFloat16: *t.offsettedPtr<mllm_fp16_t>(x) = (mllm_fp16_t)(float)v; break;
    case kInt32: *t.offsettedPtr<int32_t>(x) = v; break;
    case kInt16: *t.offsettedPtr<int16_t>(x) = v; break;
    case kInt8: *t.offsettedPtr<int8_t>(x) = v; break;
    case kInt64: *t.offsettedPtr<int64_t>(x) = v; break;
    default: vf::fail("harness", "element type");
  }
}

// A tensor of the given shape and values, laid out in one of several ways inside a larger one.
//   0 on its own   1 every other element of the last dimension   2 a range of the first dimension   3 a range of the last
struct In {
  Tensor base = Tensor::nil(), t = Tensor::nil(); I shape; D v; std::vector<uint8_t> before;
  In(const I& shape, DataTypes dt, const D& v, int layout = 0) : shape(shape), v(v) {
    I big = shape; int n = shape.size(), d = layout == 2 ? 0 : n - 1;
    if (n == 0) layout = 0;
    if (layout) big[d] = layout == 1 ? shape[d] * 2 + 1 : shape[d] + 2;
    base = Tensor::empty(big, dt, kCPU).alloc(); t = base;
    for (long i = 0; i < prod(big); ++i) set(base, unravel(i, big), 99);
    if (layout) {
      int st = layout == 1 ? 2 : 1; auto bs = base.stride(); I str(bs.begin(), bs.end());
      int off = base.stride()[d]; str[d] *= st;
      t = Tensor(TensorViewImpl::create(off, shape, str, base.impl()->storage()));
    }
    for (long i = 0; i < prod(shape); ++i) set(t, unravel(i, shape), v[i]);
    auto* p = base.ptr<uint8_t>(); before.assign(p, p + prod(big) * bytesOfType(dt));
  }
  void untouched() const { if (!before.empty() && memcmp(base.ptr<uint8_t>(), before.data(), before.size())) vf::fail("input-changed", "an input was written to"); }
};
static D labels(const I& s, long first = 1) { D d(prod(s)); for (size_t i = 0; i < d.size(); ++i) d[i] = first + i; return d; }

static void expect(const Tensor& o, DataTypes dt, const I& shape, const D& v) {
  if (o.isNil()) vf::fail("nil", "no result");
  if (o.shape() != shape) vf::fail("shape", vf::cat("shape ", vf::seq(o.shape()), " instead of ", vf::seq(shape)));
  if (o.dtype() != dt) vf::fail("dtype", "wrong element type");
  for (long i = 0; i < prod(shape); ++i) {
    double x = get(o, unravel(i, shape));
    if (x != v[i]) vf::fail("element", vf::cat("element ", vf::seq(unravel(i, shape)), " is ", x, " instead of ", v[i]));
  }
}

struct Run {
  vf::Cases C; Context& X = Context::instance(); std::vector<Tensor> out;
  bool full() { return C.st.viol.size() >= 6; }
  template<class O> bool op(OpTypes t, const O& o, const std::vector<Tensor>& in) { out.clear(); return vf::accepted([&] { out = X.buildOpAndSubmitTask(t, o, in); }); }
  static void must(bool ok, bool want, bool wont) {
    if (want && !ok) vf::fail("refused", "a valid call was refused");
    if (wont && ok) vf::fail("accepted", "a meaningless call was accepted");
  }
  template<class F> void one(const std::string& g, const std::string& w, F f) {
    C.one(g, w, [&] { try { f(); } catch (const vf::Violation& v) { throw vf::Violation{g + ":" + v.sig, w + ": " + v.msg}; } });
  }
};

static std::vector<I> shapes(int lo, int hi, int ext, bool zero) {
  std::vector<I> r;
  for (int n = lo; n <= hi; ++n) {
    int e = n >= 4 ? std::min(ext, 2) : ext; I s(n, zero && n < 4 ? 0 : 1);
    while (true) {
      r.push_back(s);
      int d = n - 1; while (d >= 0 && ++s[d] > e) s[d--] = zero && n < 4 ? 0 : 1;
      if (d < 0) break;
    }
  }
  return r;
}
static std::string lay(const std::vector<int>& l) { return " laid out " + vf::seq(l); }

