// C06: KV caches expose exactly the keys and values written, in order, and refuse what does not fit.
#define VF_MAIN
#include "vf.hpp"
#include <algorithm>
#include <filesystem>
#include <memory>
#include "fill.hpp"
#include "mllm/backends/cpu/ops/ConcatOp.hpp"
#include "mllm/backends/cpu/ops/RepeatOp.hpp"
#include "mllm/backends/cpu/ops/SliceOp.hpp"
#include "mllm/nn/lmcache/DynamicCache.hpp"
#include "mllm/nn/lmcache/PrefixCache.hpp"
#include "mllm/nn/lmcache/StaticCache.hpp"
#include "mllm/utils/Log.hpp"
mllm::LogLevel mllm::Logger::level_ = (mllm::LogLevel)9;
using namespace mllm;
using Opt = std::map<std::string, long>;

// ------------------------------------------------------------------------------------------- contents
static size_t tok(DataTypes t, long d) { return bytesOfType(t) * d / lanesOfType(t); }
static uint8_t pat(long label, int isv, long head, size_t byte) {
  return label == 0 ? 0 : uint8_t(label * 59 + isv * 101 + head * 23 + byte * 7 + (label * 31 + head) / 3 + 1);
}
// [B, H, S, D] holding the tokens first .. first + s - 1
static Tensor fresh(DataTypes t, long heads, long s, long d, int isv, long first) {
  auto x = Tensor::empty({1, (int)heads, (int)s, (int)d}, t, kCPU).alloc();
  auto* p = x.ptr<uint8_t>(); size_t n = tok(t, d);
  for (long h = 0; h < heads; ++h) for (long i = 0; i < s; ++i) for (size_t b = 0; b < n; ++b) *p++ = pat(first + i, isv, h, b);
  return x;
}
// The view must show the tokens of `want`, head h being the written head h / rep.  sdim = where the sequence runs.
static void shows(Tensor x, DataTypes t, const std::vector<long>& want, long heads, long rep, long d, int isv, int sdim, const std::string& what) {
  auto sh = x.shape(); auto w = sdim == 2 ? std::vector<int>{1, (int)heads, (int)want.size(), (int)d} : std::vector<int>{1, (int)want.size(), (int)heads, (int)d};
  if (sh != w) vf::fail("shape", vf::cat(what, " has shape ", vf::seq(sh), " instead of ", vf::seq(w)));
  if (x.dtype() != t) vf::fail("dtype", what + " has another element type");
  for (long h = 0; h < heads; ++h) for (long i = 0; i < (long)want.size(); ++i) {
    auto* p = sdim == 2 ? x.offsettedPtr<uint8_t>({0, (int)h, (int)i, 0}) : x.offsettedPtr<uint8_t>({0, (int)i, (int)h, 0});
    for (size_t b = 0; b < tok(t, d); ++b)
      if (p[b] != pat(want[i], isv, h / rep, b)) vf::fail("contents", vf::cat(what, ": head ", h, " position ", i, " does not hold the ", isv ? "value" : "key", " written there"));
  }
}

// ------------------------------------------------------------------------------------------- static cache and windows on it
struct SCfg { long cap, layers, q, kv, d; DataTypes kt, vt; bool fa2; long subs, maxs; };
struct Static {
  const SCfg& c; nn::StaticCache s;
  struct Sub { std::unique_ptr<nn::SubStaticCache> p; long start, len; std::vector<long> cnt; };
  std::vector<Sub> subs;
  std::vector<std::vector<long>> buf; std::vector<long> cnt; long next = 1;
  explicit Static(const SCfg& c) : c(c), s(c.cap, c.layers, c.q, c.kv, c.d, c.kt, c.vt, kCPU, c.fa2), buf(c.layers, std::vector<long>(c.cap, 0)), cnt(c.layers, 0) {}
  std::vector<vf::Act> actions() {
    std::vector<vf::Act> r;
    for (long l = 0; l < c.layers; ++l) for (long n = 1; n <= c.maxs; ++n) r.push_back({"append", {l, n}});
    for (long n = 0; n <= c.cap; ++n) r.push_back({"seek", {n}});
    r.push_back({"clear", {}});
    if (!c.fa2 && (long)subs.size() < c.subs)
      for (long st = 0; st <= c.cap - 1; ++st) for (long n = 0; st + n <= c.cap; ++n) if (n <= 1 || st + n == c.cap) r.push_back({"window", {st, n}});
    for (size_t i = 0; i < subs.size(); ++i) {
      for (long l = 0; l < c.layers; ++l) for (long n = 1; n <= c.maxs; ++n) r.push_back({"window-append", {(long)i, l, n}});
      r.push_back({"window-clear", {(long)i}});
    }
    return r;
  }
  std::vector<long> part(long l, long from, long n) { return {buf[l].begin() + from, buf[l].begin() + from + n}; }
  void apply(const vf::Act& a) {
    if (a.op == "clear") { s.clearCache(); std::fill(cnt.begin(), cnt.end(), 0); return; }
    if (a.op == "seek") { s.setCurrentSeqCnt(a.a[0]); std::fill(cnt.begin(), cnt.end(), a.a[0]); return; }
    if (a.op == "window") {
      Sub w; w.start = a.a[0]; w.len = a.a[1]; w.cnt.assign(c.layers, w.len);
      if (!vf::accepted([&] { w.p = std::make_unique<nn::SubStaticCache>(s, w.start, w.len); })) vf::fail("window-refused", "a window inside the capacity was refused");
      subs.push_back(std::move(w)); return;
    }
    if (a.op == "window-clear") { auto& w = subs[a.a[0]]; w.p->clearCache(); std::fill(w.cnt.begin(), w.cnt.end(), w.len); return; }
    bool win = a.op[0] == 'w'; auto* w = win ? &subs[a.a[0]] : nullptr;
    long l = a.a[win], n = a.a[win + 1], at = win ? w->start + w->cnt[l] : cnt[l];
    bool fits = at + n <= c.cap; long first = next; next += n;
    std::array<Tensor, 2> got{Tensor::nil(), Tensor::nil()};
    bool ok = vf::accepted([&] {
      if (c.fa2) {
        got = s.preGetKVWriteLocation(l, n);
        for (int v = 0; v < 2; ++v) {
          if (got[v].numel() != (size_t)(n * c.kv * c.d)) vf::fail("write-location", vf::cat("the place to write ", n, " tokens has ", got[v].numel(), " elements"));
          if (at + n > c.cap) continue;
          auto t = v ? c.vt : c.kt; auto* p = got[v].ptr<uint8_t>();
          for (long i = 0; i < n; ++i) for (long h = 0; h < c.kv; ++h) for (size_t b = 0; b < tok(t, c.d); ++b) *p++ = pat(first + i, v, h, b);
        }
      } else {
        auto k = fresh(c.kt, c.kv, n, c.d, 0, first), v = fresh(c.vt, c.kv, n, c.d, 1, first);
        got = win ? w->p->updateKVCache(l, k, v) : s.updateKVCache(l, k, v);
      }
    });
    if (ok != fits) vf::fail(fits ? "append-refused" : "over-capacity", vf::cat("appending ", n, " tokens at ", at, " of ", c.cap, fits ? " was refused" : " was accepted"));
    if (!fits) return;
    for (long i = 0; i < n; ++i) buf[l][at + i] = first + i;
    (win ? w->cnt[l] : cnt[l]) += n;
    if (!c.fa2) {
      auto want = part(l, win ? w->start : 0, win ? w->cnt[l] : cnt[l]);
      shows(got[0], c.kt, want, c.q, c.q / c.kv, c.d, 0, 2, "the returned K"); shows(got[1], c.vt, want, c.q, c.q / c.kv, c.d, 1, 2, "the returned V");
    }
  }
  void check() {
    long heads = c.fa2 ? c.kv : c.q, rep = c.fa2 ? 1 : c.q / c.kv; int sd = c.fa2 ? 1 : 2;
    for (long l = 0; l < c.layers; ++l) {
      if (s.getCurrentSeqCnt(l) != cnt[l]) vf::fail("count", vf::cat("layer ", l, " reports ", s.getCurrentSeqCnt(l), " tokens, not ", cnt[l]));
      auto kv = s.getKVCache(l); auto want = part(l, 0, cnt[l]);
      if (cnt[l]) for (int v = 0; v < 2; ++v) shows(kv[v], v ? c.vt : c.kt, want, heads, rep, c.d, v, sd, vf::cat("layer ", l));
      for (int v = 0; v < 2; ++v) shows(v ? s.getVCacheBuffer(l) : s.getKCacheBuffer(l), v ? c.vt : c.kt, buf[l], heads, rep, c.d, v, sd, vf::cat("the buffer of layer ", l));
      for (auto& w : subs) if (w.p->getCurrentSeqCnt(l) != w.cnt[l]) vf::fail("count", vf::cat("a window of layer ", l, " reports ", w.p->getCurrentSeqCnt(l), " tokens, not ", w.cnt[l]));
    }
  }
  std::string fingerprint() {
    std::map<long, long> name{{0, 0}}; std::ostringstream o;
    for (long l = 0; l < c.layers; ++l) { o << cnt[l] << ':'; for (auto x : buf[l]) { name.emplace(x, (long)name.size()); o << name[x] << ','; } }
    for (auto& w : subs) { o << '|' << w.start << ',' << w.len; for (auto x : w.cnt) o << ',' << x; }
    return o.str();
  }
};

// ------------------------------------------------------------------------------------------- growing cache
struct DCfg { long layers, q, kv, d, maxs, maxlen; DataTypes kt, vt; bool fa2; };
struct Dyn {
  const DCfg& c; nn::DynamicCache s; std::vector<std::vector<long>> buf; long next = 1;
  std::vector<std::array<Tensor, 2>> last;
  explicit Dyn(const DCfg& c) : c(c), s(c.layers, c.q, c.kv, c.d, c.fa2), buf(c.layers), last(c.layers) {}
  std::vector<vf::Act> actions() {
    std::vector<vf::Act> r;
    for (long l = 0; l < c.layers; ++l) for (long n = 1; n <= c.maxs && (long)buf[l].size() + n <= c.maxlen; ++n) r.push_back({"append", {l, n}});
    return r;
  }
  void apply(const vf::Act& a) {
    long l = a.a[0], n = a.a[1];
    {
      auto k = fresh(c.kt, c.kv, n, c.d, 0, next), v = fresh(c.vt, c.kv, n, c.d, 1, next);
      last[l] = s.updateKVCache(l, k, v);
    }
    for (long i = 0; i < n; ++i) buf[l].push_back(next++);
  }
  void check() {
    if (s.getCurrentSeqCnt() != (long)buf[0].size()) vf::fail("count", vf::cat("reports ", s.getCurrentSeqCnt(), " tokens, not ", buf[0].size()));
    for (long l = 0; l < c.layers; ++l) if (!buf[l].empty())
      for (int v = 0; v < 2; ++v) shows(last[l][v], v ? c.vt : c.kt, buf[l], c.fa2 ? c.kv : c.q, c.fa2 ? 1 : c.q / c.kv, c.d, v, 2, vf::cat("layer ", l));
  }
  std::string fingerprint() { std::string o; for (auto& b : buf) o += std::to_string(b.size()) + ","; return o; }
};

// ------------------------------------------------------------------------------------------- paged prefix cache with sliding windows
using Word = std::vector<int64_t>;
struct PCfg { std::vector<Word> words; long layers, window; std::vector<bool> sliding; long ke, ve; DataTypes kt, vt; long maxlive; };
struct Pre {
  const PCfg& c; std::unique_ptr<nn::CpuPrefixCache> s; std::string dir; long next = 1;
  using Slot = std::pair<prefix_cache::vp_addr_t, prefix_cache::vp_addr_t>;
  std::map<Word, std::vector<Slot>> ref;          // stored prefix -> per layer the last token's addresses
  std::map<std::pair<long, Slot>, long> label;    // live pages
  explicit Pre(const PCfg& c) : c(c) {
    static long k = 0; dir = std::string(getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp") + "/pre" + std::to_string(k++);
    std::filesystem::create_directory(dir);
    nn::PrefixCacheOptions o; o.total_layers = c.layers; o.per_k_token_ele_num = c.ke; o.per_v_token_ele_num = c.ve; o.k_dtype = c.kt; o.v_dtype = c.vt;
    o.zen_fs_working_dir = dir; o.zen_fs_page_bits = 1; o.zen_fs_lane_bits = 1; o.zen_fs_blob_bits_size = 20;
    if (c.window) { o.hybrid_sliding_window_cache = true; o.sliding_window_size = c.window; o.sliding_window_layers = c.sliding; }
    s = std::make_unique<nn::CpuPrefixCache>(o);
  }
  ~Pre() { s.reset(); std::error_code e; std::filesystem::remove_all(dir, e); }
  std::vector<vf::Act> actions() {
    std::vector<vf::Act> r;
    for (size_t i = 0; i < c.words.size(); ++i) {
      if (!ref.count(c.words[i])) r.push_back({"run", {(long)i}});
      else r.push_back({"evict", {(long)i}});
    }
    return r;
  }
  bool live(const Slot& x) const { return x.first != INVALID_VP_ADDR; }
  void apply(const vf::Act& a) {
    auto& w = c.words[a.a[0]];
    if (a.op == "evict") {
      s->evictSlidingWindowLayerOn(w);
      if (!c.window) return;
      for (size_t n = 1; n + c.window <= w.size(); ++n) {
        auto& at = ref.at(Word(w.begin(), w.begin() + n));
        for (long l = 0; l < c.layers; ++l) if (c.sliding[l] && live(at[l])) { label.erase({l, at[l]}); at[l] = {INVALID_VP_ADDR, INVALID_VP_ADDR}; }
      }
      return;
    }
    // a request: reuse what is stored, allocate the rest, write it, promote the whole
    auto r = s->find(w);
    size_t have = r.success ? r.matched_length : 0;
    std::vector<std::vector<prefix_cache::vp_addr_t>> k(c.layers), v(c.layers);
    for (long l = 0; l < c.layers; ++l) {
      for (size_t i = 0; i < have; ++i) { k[l].push_back(r.k_cache_addresses[l][i]); v[l].push_back(r.v_cache_addresses[l][i]); }
      for (size_t i = have; i < w.size(); ++i) {
        Slot x{s->allocKey(l), s->allocValue(l)};
        for (auto& [y, n] : label) if (y.first == l && (y.second.first == x.first || y.second.second == x.second)) vf::fail("double-served", vf::cat("layer ", l, ": a live page was handed out again"));
        label[{l, x}] = next;
        for (int isv = 0; isv < 2; ++isv) { auto* p = (uint8_t*)(isv ? s->physicalAddrValue(l, x.second) : s->physicalAddrKey(l, x.first)); for (size_t b = 0; b < tok(isv ? c.vt : c.kt, isv ? c.ve : c.ke); ++b) p[b] = pat(next, isv, l, b); }
        next++; k[l].push_back(x.first); v[l].push_back(x.second);
      }
    }
    s->promote(w, k, v, 0);
    for (size_t n = 1; n <= w.size(); ++n) {
      std::vector<Slot> at; for (long l = 0; l < c.layers; ++l) at.push_back({k[l][n - 1], v[l][n - 1]});
      ref.emplace(Word(w.begin(), w.begin() + n), at);
    }
  }
  void check() {
    for (auto& w : c.words) {
      auto r = s->find(w); size_t n = 0; while (n < w.size() && ref.count(Word(w.begin(), w.begin() + n + 1))) n++;
      if ((r.success ? r.matched_length : 0) != (int)n) vf::fail("match", vf::cat("looking up ", vf::seq(w), " matches ", r.matched_length, " tokens, not ", n));
      for (size_t i = 0; i < n; ++i) for (long l = 0; l < c.layers; ++l) {
        auto& want = ref.at(Word(w.begin(), w.begin() + i + 1))[l]; Slot got{r.k_cache_addresses[l][i], r.v_cache_addresses[l][i]};
        if (got == want) continue;
        auto d = vf::cat("token ", i, " of ", vf::seq(w), " in layer ", l);
        if (!live(want)) vf::fail("not-evicted", d + " lies outside the window and is still stored");
        if (!live(got)) vf::fail("evicted", d + " lies inside the window (or in a full layer) and was dropped");
        vf::fail("addresses", d + " is found at another page than it was stored");
      }
    }
    for (auto& [x, n] : label) for (int isv = 0; isv < 2; ++isv) {
      auto* p = (uint8_t*)(isv ? s->physicalAddrValue(x.first, x.second.second) : s->physicalAddrKey(x.first, x.second.first));
      for (size_t b = 0; b < tok(isv ? c.vt : c.kt, isv ? c.ve : c.ke); ++b) if (p[b] != pat(n, isv, x.first, b)) vf::fail("contents", vf::cat("layer ", x.first, ": a stored page lost its bytes"));
    }
  }
  std::string fingerprint() {
    std::ostringstream o; for (auto& [w, at] : ref) { for (auto t : w) o << t; for (auto& x : at) o << ',' << x.first << ',' << x.second; o << ';'; }
    return o.str();
  }
};

void vf_job(const std::string& name, const Opt& o, vf::Stats& st) {
  auto& C = Context::instance(); C.reg<vf::ZeroFillFactory>(); C.reg<cpu::CPUSliceOpFactory>(); C.reg<cpu::CPUConcatOpFactory>(); C.reg<cpu::CPURepeatOpFactory>();
  auto g = [&](const char* k, long d) { return o.count(k) ? o.at(k) : d; };
  auto kt = (DataTypes)g("kt", 0), vt = (DataTypes)g("vt", 0);
  if (g("kind", 0) == 0) {
    SCfg c{g("cap", 4), g("layers", 1), g("q", 2), g("kv", 1), g("d", 2), kt, vt, g("fa2", 0) != 0, g("subs", 0), g("maxs", 2)};
    vf::explore<Static>(c, g("depth", 4), st);
  } else if (g("kind", 0) == 1) {
    DCfg c{g("layers", 1), g("q", 2), g("kv", 1), g("d", 2), g("maxs", 2), g("maxlen", 6), kt, vt, g("fa2", 0) != 0};
    vf::explore<Dyn>(c, g("depth", 6), st);
  } else {
    PCfg c; c.layers = g("layers", 2); c.window = g("window", 2); c.ke = g("ke", 3); c.ve = g("ve", 3); c.kt = kt; c.vt = vt;
    for (long l = 0; l < c.layers; ++l) c.sliding.push_back((g("sliding", 1) >> l) & 1);
    std::vector<Word> cur{{}};
    for (long l = 1; l <= g("len", 4); ++l) {
      std::vector<Word> nx; for (auto& w : cur) for (int t = 1; t <= 2; ++t) { auto x = w; x.push_back(t); nx.push_back(x); if (l >= g("minlen", 3) && (x[0] == 1 || g("both", 0))) c.words.push_back(x); }
      cur = nx;
    }
    vf::explore<Pre>(c, g("depth", 4), st);
  }
}
