// P17: model files.  What was written is what is read; whatever a dead or starved writer leaves is refused or complete.
#define VF_MAIN
#include "vf.hpp"
#include <fstream>
#include <numeric>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
#include "mllm/core/ParameterFile.hpp"
#include "mllm/core/Tensor.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/utils/Log.hpp"
mllm::LogLevel mllm::Logger::level_ = (mllm::LogLevel)9;
using namespace mllm;
using Opt = std::map<std::string, long>;
using I = std::vector<int32_t>;
using S = std::string;

extern "C" void vf_io_arm(const char*, long, long, long);
extern "C" long vf_io_ops(); extern "C" long vf_io_bytes();
extern "C" void __real_exit(int);
extern "C" void __wrap_exit(int c) { if (vf::refuse_to) longjmp(*vf::refuse_to, 1); __real_exit(c); }
static std::vector<std::pair<void*, size_t>> maps;
extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t);
extern "C" void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) {
  void* r = __real_mmap(a, n, p, f, fd, o);
  if (fd >= 0 && r != MAP_FAILED) maps.push_back({r, n});
  return r;
}

struct Want { S name; int dtype; I shape; S bytes; };
using Wants = std::map<S, Want>;
static S show(const Wants& w) { S s; for (auto& [n, x] : w) s += vf::cat(n.size() > 20 ? n.substr(0, 20) + ".." : n, ':', x.dtype, vf::seq(x.shape), ' '); return s; }

static int first_fd;
// a refused read keeps what it held: give it back
static void sweep() { for (auto& m : maps) munmap(m.first, m.second); maps.clear(); close_range(first_fd, ~0U, 0); }

// "" : the file holds exactly these tensors;  "refused";  otherwise what is wrong
template<ModelFileVersion V> static S look(const S& path, bool mm, const Wants& want, bool shapes = true) {
  S bad; maps.clear();
  bool ok = vf::accepted([&] {
    ParameterFile::ptr_t f = ParameterFileIOImpl<kCPU, V>::read(path, mm);
    size_t n = 0;
    for (auto& [name, t] : *f) {
      n++;
      auto it = want.find(name);
      if (it == want.end()) { bad = vf::cat("a tensor \"", name.substr(0, 40), "\" that was never written"); return; }
      auto& w = it->second; S k = vf::cat("tensor \"", name.substr(0, 40), "\" ");
      long cnt = 1; for (auto x : w.shape) cnt *= x;
      I ws = shapes ? w.shape : I{(int32_t)cnt};
      if (t.shape() != ws) bad = vf::cat(k, "has shape ", vf::seq(t.shape()), " instead of ", vf::seq(ws));
      else if ((int)t.dtype() != w.dtype) bad = vf::cat(k, "has type ", (int)t.dtype(), " instead of ", w.dtype);
      else if (t.bytes() != w.bytes.size()) bad = vf::cat(k, "has ", t.bytes(), " bytes instead of ", w.bytes.size());
      else if (!t.isContiguous()) bad = k + "is not contiguous";
      else if (w.bytes.size() && memcmp(t.ptr<char>(), w.bytes.data(), w.bytes.size())) bad = k + "has other contents";
      if (bad.size()) return;
      if (!f->has(name) || f->pull(name).shape() != ws) { bad = k + "can not be pulled"; return; }
    }
    if (n != want.size()) bad = vf::cat(n, " of ", want.size(), " tensors");
  });
  if (!ok) { sweep(); return "refused"; }
  return bad;
}
template<ModelFileVersion V> static void expect(const S& path, const Wants& want, bool must, const S& after) {
  for (int mm = 0; mm < 2; ++mm) {
    S r = look<V>(path, mm, want, V == ModelFileVersion::kV2);
    S how = vf::cat(V == ModelFileVersion::kV2 ? "v2" : "v1", mm ? " mapped" : " read");
    if (r == "refused") { if (must) vf::fail("refused:" + how, vf::cat(after, ": the file is refused; written: ", show(want))); }
    else if (r.size()) vf::fail((must ? "other:" : "partial:") + how, vf::cat(after, ": the file is accepted, but has ", r, "; written: ", show(want)));
    // the other version's reader must not take it for its own
    constexpr auto O = V == ModelFileVersion::kV2 ? ModelFileVersion::kV1 : ModelFileVersion::kV2;
    if (must && look<O>(path, mm, want, O == ModelFileVersion::kV2) != "refused") vf::fail("version", after + ": the reader of the other version accepts the file");
  }
}
static void put(const S& path, const S& b) { std::ofstream f(path, std::ios::binary | std::ios::trunc); f.write(b.data(), b.size()); }
static S slurp(const S& path) { std::ifstream f(path, std::ios::binary); return {std::istreambuf_iterator<char>(f), {}}; }
template<ModelFileVersion V> static void cuts(vf::Cases& C, const S& what, const S& path, const Wants& want, long step) {
  long n = slurp(path).size();
  for (long l = n - 1; l >= 0; l -= (l > n - 600 || l < 1200) ? 1 : step) {
    if (truncate(path.c_str(), l)) vf::fail("harness", "truncate");
    if (!C.one("cut", vf::cat(what, " cut to ", l, " of ", n, " bytes"), [&] { expect<V>(path, want, false, vf::cat("cut to ", l, " of ", n, " bytes")); })) return;
  }
}

// ------------------------------------------------------------------------------------ files of the exporter
struct In {
  S b; size_t at = 0;
  S take(size_t n) { if (at + n > b.size()) { fprintf(stderr, "corpus\n"); _exit(3); } at += n; return b.substr(at - n, n); }
  long u() { uint32_t x; memcpy(&x, take(4).data(), 4); return x; }
  S s() { long n = u(); return take(n); }
};
static void corpus(vf::Cases C, const S& dir) {
  In in{slurp(getenv("VF_CORPUS"))};
  for (long n = in.u(); n--;) {
    S what = in.s(); long flags = in.u(); S file = in.s(); Wants w;
    for (long k = in.u(); k--;) { Want x; x.name = in.s(); x.dtype = in.u(); x.shape.resize(in.u()); for (auto& d : x.shape) d = in.u(); x.bytes = in.s(); w[x.name] = x; }
    S path = dir + "/m.mllm"; put(path, file);
    C.one(flags & 1 ? "export" : "died", what, [&] { expect<ModelFileVersion::kV2>(path, w, flags & 1, what); });
    if (flags & 2) cuts<ModelFileVersion::kV2>(C, what, path, w, 61);
  }
}

// ------------------------------------------------------------------------------------ files of the runtime
struct Kind { DataTypes dt; I shape; int layout; };   // layout: 0 own storage 1 every other of the last 2 turned 3 a part of the first
static Tensor make(const Kind& k, int seed, Want& w) {
  I big = k.shape; int n = big.size(), lay = n == 0 ? 0 : k.layout;
  if (lay == 1) big[n - 1] = big[n - 1] * 2 + 1;
  if (lay == 2) std::reverse(big.begin(), big.end());
  if (lay == 3) big[0] += 2;
  auto t = Tensor::empty(big, k.dt, kCPU).alloc();
  long eb = bytesOfType(k.dt), cnt = 1; for (auto x : big) cnt *= x;
  auto* p = t.ptr<uint8_t>(); for (long i = 0; i < cnt * eb; ++i) p[i] = (i * 7 + seed * 31 + i / 251) & 0xff;
  auto bs = t.stride(); I str(bs.begin(), bs.end()); int off = 0;
  if (lay == 1) { str[n - 1] *= 2; off = 1; }
  if (lay == 2) std::reverse(str.begin(), str.end());
  if (lay == 3) off = str[0];
  if (lay) t = Tensor(TensorViewImpl::create(off, k.shape, str, t.impl()->storage()));
  w.dtype = k.dt; w.shape = k.shape; w.bytes.clear();
  long m = 1; for (auto x : k.shape) m *= x;
  for (long i = 0; i < m; ++i) {
    long r = i, o = off; for (int d = n - 1; d >= 0; --d) { o += (r % k.shape[d]) * str[d]; r /= k.shape[d]; }
    w.bytes.append((char*)p + o * eb, eb);
  }
  return t;
}
struct Item { S name; Kind k; int stored = 0; };      // stored: how the storage is called
struct Set {
  ParameterFile::ptr_t f; Wants w; S what; bool fits = true;
  Set(const std::vector<Item>& v) {
    f = ParameterFile::create(); int seed = 1;
    for (auto& i : v) {
      Want x; auto t = make(i.k, seed++, x); x.name = i.name; w[i.name] = x;
      if (i.stored) t.impl()->storage()->name_ = i.stored == 1 ? i.name : i.stored == 2 ? "s" : S(300, 'q');
      f->push(i.name, t);
      what += vf::cat(i.name.size() > 20 ? vf::cat(i.name.size(), " characters") : i.name, ':', (int)i.k.dt, vf::seq(i.k.shape), "/", i.k.layout, i.stored, ' ');
      if (i.name.size() > 255 || i.k.shape.size() > 16) fits = false;
    }
  }
};
template<ModelFileVersion V> static void runtime(vf::Cases C, const std::vector<Item>& items, const S& dir, int faults) {
  S path = dir + "/m.mllm", vs = V == ModelFileVersion::kV2 ? "v2 " : "v1 ";
  Set s(items); long ops = 0, bytes = 0; bool wrote = false;
  auto store = [&] { return vf::accepted([&] { ParameterFileIOImpl<kCPU, V>::write(s.f, path); }); };
  C.one("store", vs + s.what, [&] {
    ::unlink(path.c_str());
    vf_io_arm(dir.c_str(), -1, -1, -1); wrote = store(); ops = vf_io_ops(); bytes = vf_io_bytes(); vf_io_arm(nullptr, -1, -1, -1);
    if (!wrote) sweep();
    if (!wrote && (s.fits || V == ModelFileVersion::kV1)) vf::fail("writer-refused", "the writer refuses " + s.what);
    if (wrote || !access(path.c_str(), F_OK)) expect<V>(path, s.w, wrote, wrote ? "written" : "refused by the writer");
  });
  if (!wrote || !faults) return;
  S full = slurp(path);
  cuts<V>(C, vs + s.what, path, s.w, faults > 1 ? 1 : 61);
  for (long k = 0; k <= ops; ++k) for (long part = -1; part < 3; ++part)
    C.one("crash", vf::cat(vs, s.what, " dying at operation ", k, " of ", ops, part < 0 ? S() : vf::cat(" after ", part + 1, " pages")), [&] {
      ::unlink(path.c_str()); fflush(nullptr);
      pid_t c = fork();
      if (!c) { vf_io_arm(dir.c_str(), k, part, -1); store(); _exit(78); }
      int st; waitpid(c, &st, 0);
      if (!access(path.c_str(), F_OK)) expect<V>(path, s.w, false, "after a crash of the writer");
    });
  for (long room = 0; room <= (long)full.size(); room += (faults > 1 || room < 1100 || room > (long)full.size() - 300) ? 1 : 37)
    C.one("full", vf::cat(vs, s.what, " with room for ", room, " of ", full.size(), " bytes"), [&] {
      ::unlink(path.c_str());
      vf_io_arm(dir.c_str(), -1, -1, room); bool ok = store(); vf_io_arm(nullptr, -1, -1, -1);
      if (!ok) sweep();
      if (ok || !access(path.c_str(), F_OK)) expect<V>(path, s.w, ok, vf::cat("with room for ", room, " of ", full.size(), " bytes", ok ? ", reported as written" : ""));
    });
}

static const std::vector<DataTypes> TYPES = {kFloat32, kFloat16, kBFloat16, kInt8, kInt16, kInt32, kInt64, kUInt8, kUInt16, kUInt32, kUInt64, kByte, kComplexFloat32, kComplexFloat64};
static const std::vector<I> SHAPES = {{1}, {3}, {2, 3}, {1, 4, 2}, {0}, {2, 0, 3}, {3, 1}, {1, 1, 2, 1, 3}, I(16, 1)};

void vf_job(const S&, const Opt& opt, vf::Stats& st) {
  auto o = [&](const char* k, long d) { auto it = opt.find(k); return it == opt.end() ? d : it->second; };
  rlimit rl{4096, 4096}; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl);
  first_fd = dup(2); close(first_fd);
  S dir = S(getenv("VF_TMP")) + "/files"; mkdir(dir.c_str(), 0755);
  vf::Cases C{st};
  if (o("kind", 0) == 0) { corpus(C, dir); return; }
  Context::instance().reg<cpu::CPUContiguousOpFactory>();
  auto both = [&](const std::vector<Item>& v, int faults) { runtime<ModelFileVersion::kV2>(C, v, dir, faults); runtime<ModelFileVersion::kV1>(C, v, dir, faults); };
  if (o("kind", 0) == 1) {            // one tensor: every type, shape, layout, and how its storage is called
    for (auto dt : TYPES) for (auto& s : SHAPES) for (int l = 0; l < 4; ++l) for (int q = 0; q < (dt == kFloat32 ? 4 : 1); ++q) both({{"w", {dt, s, l}, q}}, 0);
    for (auto n : {S(""), S("a"), S("model.layers.0.weight"), S(254, 'n'), S(255, 'n'), S(256, 'n'), S(257, 'n'), S(600, 'n'), S(84, '\xe6') + "\xe6\xa8\xa1"})
      for (int q = 0; q < 4; ++q) for (int two = 0; two < 3; ++two) {
        std::vector<Item> v{{n, {kFloat32, {2, 2}, 0}, q}};
        if (two) v.insert(two == 1 ? v.begin() : v.end(), Item{n + (n.size() > 250 ? "" : "x"), {kInt8, {5}, 0}, 0});
        if (two && n.size() > 250) v[two == 1 ? 0 : 1].name.back() = 'm';
        both(v, 0);
      }
  } else {                            // sets, with every fault
    std::vector<Kind> K = {{kFloat32, {3}, 0}, {kInt8, {2, 3}, 2}, {kFloat16, {0}, 0}, {kBFloat16, {2, 2}, 3}, {kInt64, {1200}, 0}, {kUInt8, {9000}, 0}};
    int nk = o("alphabet", 4), len = o("len", 2);
    std::vector<std::vector<Item>> all{{}};
    for (size_t b = 0, e = 1, n = 0; (int)n < len; ++n, b = e, e = all.size())
      for (size_t i = b; i < e; ++i) for (int k = 0; k < nk; ++k) { auto v = all[i]; v.push_back({S(1 + n * 3, 'a' + n), K[k], (int)(n + k) % 4}); all.push_back(v); }
    for (size_t i = o("part", 0); i < all.size(); i += o("parts", 1)) {
      if (o("v", 2) == 2) runtime<ModelFileVersion::kV2>(C, all[i], dir, o("faults", 1)); else runtime<ModelFileVersion::kV1>(C, all[i], dir, o("faults", 1));
    }
  }
}
