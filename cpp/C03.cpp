// C03: live blocks are disjoint, large and aligned enough, keep their bytes; freed memory is reused / returned once.
#define VF_MAIN
#include "vf.hpp"
#include <algorithm>
#include <memory>
#include "mllm/engine/BuddyMemPool.hpp"
#include "mllm/engine/MemoryManager.hpp"
#include "mllm/backends/cpu/CPUAllocator.hpp"
#include "mllm/utils/Log.hpp"
mllm::LogLevel mllm::Logger::level_ = (mllm::LogLevel)9;
using namespace mllm;

static bool g_count = false; static long g_budget = -1;      // -1: no limit
extern "C" void* __real_malloc(size_t);
extern "C" void* __wrap_malloc(size_t n) { if (g_count && g_budget >= 0 && (long)n > g_budget) return nullptr; return __real_malloc(n); }

// The real CPU allocator, observed.
struct Watch final : public Allocator {
  std::shared_ptr<Allocator> in; std::map<char*, size_t> segs, direct; long calls = 0;
  Watch() { in = std::make_shared<cpu::CPUAllocator>(); }
  bool ctrlByMemManager() override { return true; }
  bool alloc(Storage* s) override {
    g_count = true; bool ok = in->alloc(s); g_count = false;
    if (ok) direct[(char*)s->ptr_] = s->size_;
    return ok;
  }
  bool alloc(const Storage::ptr_t& s) override { return alloc(s.get()); }
  void free(Storage* s) override {
    if (!direct.erase((char*)s->ptr_)) vf::fail("returned-twice", "memory that is not (any more) held from the system was given back to it");
    in->free(s);
  }
  void free(const Storage::ptr_t& s) override { free(s.get()); }
  bool generalAlloc(void** p, size_t cap, size_t al) override {
    if (++calls > 40) vf::fail("hoarding", "one request made the pool take more than 40 segments from the system");
    g_count = true; bool ok = in->generalAlloc(p, cap, al); g_count = false;
    if (*p) segs[(char*)*p] = cap;
    return ok;
  }
  void generalFree(void* p) override {
    if (p && !segs.erase((char*)p)) vf::fail("returned-twice", "a segment that is not (any more) held from the system was given back to it");
    in->generalFree(p);
  }
  size_t allocSize(Storage* s) override { return in->allocSize(s); }
  size_t allocSize(const Storage::ptr_t& s) override { return in->allocSize(s); }
  size_t alignSize() const override { return in->alignSize(); }
};

struct Cfg { size_t cap, mino, maxo; std::vector<size_t> sizes; std::vector<std::unordered_set<size_t>> caches; long via, live, budget; size_t thresh; bool odd_cap; };

struct Blk { std::shared_ptr<Storage> s; uint32_t stamp; size_t want; };

struct H {
  const Cfg& c; std::shared_ptr<Watch> w = std::make_shared<Watch>();
  std::shared_ptr<BuddyMemPool> p; std::unique_ptr<MemoryManager> mm;
  std::vector<Blk> live; std::vector<size_t> held;    // sizes (rounded) of freed blocks the small-object cache may hold
  size_t cur = 0; uint32_t n = 0; bool up = false, flipped = false;
  explicit H(const Cfg& c) : c(c) {
    g_budget = -1;
    BuddyMemPoolOptions o; o.buddy_first_segment_cap = c.cap; o.buddy_min_order = c.mino; o.buddy_max_order = c.maxo;
    if (c.caches.size()) { o.cache_small_obj_enabled = true; o.cache_size_set = c.caches[0]; }
    up = vf::accepted([&] {
      if (c.via) { mm = std::make_unique<MemoryManager>(); MemoryManagerOptions m; m.buddy_mem_pool_options = o; m.really_large_tensor_threshold = c.thresh; mm->registerAllocator(kCPU, w, m); }
      else p = std::make_shared<BuddyMemPool>(o, w);
    });
    if (!up && !c.odd_cap) vf::fail("refused-options", "a pool with a power-of-two segment was refused");
    g_budget = c.budget;
  }
  ~H() { g_budget = -1; for (auto& b : live) b.s->ptr_ = nullptr; p.reset(); mm.reset(); }
  std::vector<vf::Act> actions() {
    std::vector<vf::Act> r;
    if (!up) return r;
    if ((long)live.size() < c.live) for (size_t i = 0; i < c.sizes.size(); ++i) r.push_back({"alloc", {(long)i}});
    for (size_t i = 0; i < live.size(); ++i) r.push_back({"free", {(long)i}});
    for (size_t i = 0; i < c.caches.size() && c.caches.size() > 1; ++i) if (i != cur) r.push_back({"caches", {(long)i}});
    r.push_back({"shutdown", {}});
    return r;
  }
  size_t rounded(size_t s) const { size_t a = w->alignSize(); return (s + a - 1) / a * a; }
  size_t block(size_t s) const { size_t b = size_t(1) << c.mino; while (b < rounded(s)) b *= 2; return b; }
  bool is_direct(size_t s) const { return c.via && rounded(s) >= c.thresh; }
  bool is_cached(size_t s) const { return c.caches.size() && c.caches[cur].count(rounded(s)); }
  // A free, naturally aligned range for a block exists in some segment.
  bool fits(size_t s) {
    size_t b = block(s);
    for (auto& [base, cap] : w->segs)
      for (size_t off = 0; off + b <= cap; off += b) {
        bool ok = true;
        for (auto& l : live) if (!is_direct(l.want)) {
          char* q = (char*)l.s->ptr_;
          if (q < base + off + b && q + block(l.want) > base + off) { ok = false; break; }
        }
        if (ok) return true;
      }
    return false;
  }
  void pat(Blk& b, bool set) {
    auto* q = (uint8_t*)b.s->ptr_;
    size_t step = b.want > 65536 ? 509 : 1;
    for (size_t i = 0; i < b.want; i += step) {
      uint8_t v = b.stamp * 73 + i * 7 + (i >> 8);
      if (set) q[i] = v; else if (q[i] != v) vf::fail("bytes-lost", vf::cat("byte ", i, " of a live block of ", b.want, " bytes changed"));
    }
    if (b.want && step > 1) { if (set) q[b.want - 1] = b.stamp; else if (q[b.want - 1] != (uint8_t)b.stamp) vf::fail("bytes-lost", "last byte of a live block changed"); }
  }
  void apply(const vf::Act& a) {
    if (a.op == "alloc") {
      size_t s = c.sizes[a.a[0]];
      auto st = std::make_shared<Storage>(); st->size_ = s; st->custom_32bit_uuid_ = 100 + n;
      size_t segs = w->segs.size(); bool could = !is_direct(s) && fits(s);
      bool mustcache = is_cached(s) && std::find(held.begin(), held.end(), rounded(s)) != held.end();
      w->calls = 0;
      bool ok = vf::accepted([&] { mm ? mm->alloc(st.get()) : p->alloc(st.get()); }) && st->ptr_;
      if (!ok) {
        if (could && held.empty()) vf::fail("refused", vf::cat("a request of ", s, " bytes was refused although the pool has room"));
        if (s <= (1u << 20) && c.budget < 0) vf::fail("refused", vf::cat("a request of ", s, " bytes was refused with unlimited memory"));
        st->ptr_ = nullptr; up = false;      // a refusal ends the process
        return;
      }
      if ((uintptr_t)st->ptr_ < 4096) vf::fail("no-memory", vf::cat("a request of ", s, " bytes was served from memory the system refused to give"));
      if (w->segs.size() > segs && (mustcache || (could && held.empty())))
        vf::fail("not-reused", vf::cat("a request of ", s, " bytes took a new segment from the system although freed memory fits"));
      if (s && (uintptr_t)st->ptr_ % w->alignSize()) vf::fail("misaligned", vf::cat("a block of ", s, " bytes is not aligned to ", w->alignSize()));
      if (mustcache) held.erase(std::find(held.begin(), held.end(), rounded(s)));
      Blk b{st, ++n, s};
      if (!is_direct(s)) {
        bool inside = false;
        for (auto& [base, cap] : w->segs) inside |= (char*)st->ptr_ >= base && (char*)st->ptr_ + s <= base + cap;
        if (!inside) vf::fail("outside", vf::cat("a block of ", s, " bytes lies outside the pool's memory"));
      }
      for (auto& l : live) {
        char *x = (char*)l.s->ptr_, *y = (char*)st->ptr_;
        if (x < y + s && y < x + l.want) vf::fail("overlap", vf::cat("a new block of ", s, " bytes overlaps a live one of ", l.want));
      }
      pat(b, true); live.push_back(b);
    } else if (a.op == "free") {
      auto b = live.at(a.a[0]); live.erase(live.begin() + a.a[0]);
      mm ? mm->free(b.s.get()) : p->free(b.s.get());
      if (is_cached(b.want) && !is_direct(b.want)) held.push_back(rounded(b.want));
      b.s->ptr_ = nullptr;
    } else if (a.op == "caches") {
      cur = a.a[0]; p->updateCacheSizeList(c.caches[cur]); flipped = !flipped;
      std::vector<size_t> h; for (auto s : held) if (c.caches[cur].count(s)) h.push_back(s);
      held = h;
    } else if (a.op == "shutdown") {
      for (auto& b : live) mm ? mm->free(b.s.get()) : p->free(b.s.get());
      live.clear(); p.reset(); mm.reset(); up = false;
      if (w->segs.size() || w->direct.size()) vf::fail("not-returned", vf::cat(w->segs.size() + w->direct.size(), " pieces of memory were not given back to the system at shutdown"));
    }
  }
  void check() { for (auto& b : live) pat(b, false); }
  std::string fingerprint() {
    // position of every live block relative to its segment (segments named by size and first use)
    std::map<char*, int> name; std::ostringstream o;
    for (auto& b : live) {
      o << b.want << '@';
      for (auto& [base, cap] : w->segs) if ((char*)b.s->ptr_ >= base && (char*)b.s->ptr_ < base + cap) {
        if (!name.count(base)) name[base] = name.size();
        o << name[base] << ':' << cap << ':' << (char*)b.s->ptr_ - base;
      }
      o << ' ';
    }
    std::sort(held.begin(), held.end());
    o << '|' << vf::seq(held) << '|' << w->segs.size() << '|' << up << cur << flipped;
    return o.str();
  }
};

void vf_job(const std::string& name, const std::map<std::string, long>& o, vf::Stats& st) {
  auto g = [&](const char* k, long d) { auto it = o.find(k); return it == o.end() ? d : it->second; };
  Cfg c; c.mino = g("mino", 6); c.maxo = g("maxo", 9); c.cap = g("cap", 1L << c.maxo); c.odd_cap = c.cap & (c.cap - 1);
  c.via = g("via", 0); c.live = g("live", 6); c.budget = g("budget", -1); c.thresh = g("thresh", 1 << 27);
  switch (g("sizes", 0)) {
    case 0: c.sizes = {1, 64, 65, 200, 512}; break;
    case 1: c.sizes = {100, 256, 257, 600}; break;            // beyond the first segment
    case 2: c.sizes = {33, 64}; break;
    case 3: c.sizes = {0, 32, 1000, 2049, 5000}; break;
    case 4: c.sizes = {100, 3000, size_t(1) << 30, size_t(3) << 30}; break;
    case 5: c.sizes = {33, 70, 128}; break;
    case 6: c.sizes = {64, 1024, 2049}; break;
    case 7: c.sizes = {64, 256}; break;                       // the smallest block and the whole segment
    case 8: c.sizes = {33, 70, 512}; break;
  }
  switch (g("caches", 0)) {
    case 1: c.caches = {{64, 96, 128}}; break;                // the sizes the requests round to
    case 2: c.caches = {{64, 128}, {128}, {}, {96, 64}}; break;
  }
  vf::explore<H>(c, o.at("depth"), st);
}
