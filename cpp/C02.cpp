// C02: live KV lanes are disjoint, inside their storage, keep their bytes, are reused once freed, survive a reopen.
#define VF_MAIN
#include "vf.hpp"
#include <filesystem>
#include <algorithm>
#include <memory>
#include "fill.hpp"
#include "mllm/engine/prefix_cache/Allocator.hpp"
#include "mllm/engine/prefix_cache/ZenFS.hpp"
#include "mllm/utils/Log.hpp"
mllm::LogLevel mllm::Logger::level_ = (mllm::LogLevel)9;
using namespace mllm;
using namespace mllm::prefix_cache;

struct Cfg { long page, lane, ele; DataTypes dt; ZenFSBlobMMapType mm; bool record; long via; long maxlive; };

struct H {
  const Cfg& c; std::string dir;
  std::unique_ptr<ZenFileSystem> z; std::unique_ptr<PrefixCacheAllocator> pa;
  std::vector<vp_addr_t> live;               // in allocation order
  std::map<vp_addr_t, uint32_t> stamp; uint32_t n = 0;
  std::set<std::pair<std::string, vp_addr_t>> hinted; std::set<long> blobs{0}; long reopened = 0;
  size_t lanes, bytes;
  explicit H(const Cfg& c) : c(c) {
    static long k = 0;
    dir = std::string(getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp") + "/zen" + std::to_string(k++);
    lanes = size_t(1) << (c.page + c.lane);
    bytes = bytesOfType(c.dt) * c.ele / lanesOfType(c.dt);
    ZenFileSystemOptions o; o.record = c.record; o.working_dir = dir; o.page_bits = c.page; o.lane_bits = c.lane;
    o.per_k_token_ele = o.per_v_token_ele = c.ele; o.k_dtype = o.v_dtype = c.dt; o.mmap_type = c.mm;
    if (!c.record) std::filesystem::create_directory(dir);
    if (c.via) { PrefixCacheAllocatorOptions p; p.zen_fs_options = o; pa = std::make_unique<PrefixCacheAllocator>(p); }
    else { z = std::make_unique<ZenFileSystem>(); z->initialize(o); }
  }
  ~H() { z.reset(); pa.reset(); std::error_code e; std::filesystem::remove_all(dir, e); }
  vp_addr_t alloc() { return pa ? pa->alloc(kCPU) : z->malloc(); }
  char* at(vp_addr_t a) { return pa ? pa->physicalAddr(a) : z->access(a); }
  std::vector<vf::Act> actions() {
    std::vector<vf::Act> r;
    if ((long)live.size() < c.maxlive) r.push_back({"alloc", {}});
    if (live.size() + lanes <= (size_t)c.maxlive) r.push_back({"fillblob", {}});
    std::set<size_t> idx;
    for (size_t i : {size_t(0), size_t(1), live.size() / 2, live.size() - 1}) if (i < live.size()) idx.insert(i);
    for (auto i : idx) {
      r.push_back({"free", {(long)i}}); r.push_back({"purge", {(long)i}}); r.push_back({"prefetch", {(long)i}}); r.push_back({"rewrite", {(long)i}});
    }
    if (live.size() > 1) r.push_back({"freeall", {}});
    if (c.record && z && reopened < 2) r.push_back({"reopen", {}});
    return r;
  }
  static uint8_t pat(uint32_t s, size_t i) { return uint8_t((s * 2654435761u) >> (8 * (i % 4))) ^ uint8_t(i * 37 + s); }
  void write(vp_addr_t a) {
    char* p = at(a);
    if (!p) vf::fail("no-storage", vf::cat("address ", a, " has no storage"));
    uint32_t s = stamp[a] = ++n;
    for (size_t i = 0; i < bytes; ++i) p[i] = pat(s, i);
  }
  void one() {
    auto a = alloc();
    if (std::find(live.begin(), live.end(), a) != live.end()) vf::fail("double-served", vf::cat("address ", a, " was handed out while live"));
    long blob = a / lanes;
    if (!blobs.count(blob)) {          // storage may only grow when every lane of it is live
      if (live.size() < blobs.size() * lanes)
        vf::fail("not-reused", vf::cat("address ", a, " lies in new storage although only ", live.size(), " of ", blobs.size() * lanes, " lanes are live"));
      blobs.insert(blob);
    }
    live.push_back(a); write(a);
  }
  void apply(const vf::Act& a) {
    if (a.op == "alloc") one();
    else if (a.op == "fillblob") for (size_t i = 0; i < lanes; ++i) one();
    else if (a.op == "freeall") { hinted.clear(); for (auto x : live) pa ? pa->free(kCPU, x) : z->free(x); live.clear(); }
    else if (a.op == "reopen") {
      z->finalize(); z.reset(); z = std::make_unique<ZenFileSystem>(); z->recover(dir); reopened++; hinted.clear();
    } else {
      auto x = live.at(a.a[0]);
      if (a.op[0] == 'p') hinted.insert({a.op, x});
      if (a.op == "free") { hinted.erase({"purge", x}); hinted.erase({"prefetch", x}); live.erase(live.begin() + a.a[0]); pa ? pa->free(kCPU, x) : z->free(x); }
      else if (a.op == "purge") pa ? pa->purge(kCPU, x) : z->hintsPurge(x);
      else if (a.op == "prefetch") pa ? pa->prefetch(kCPU, x) : z->hintsPrefetch(x);
      else write(x);
    }
  }
  void check() {
    std::map<char*, vp_addr_t> where;
    for (auto x : live) {
      char* p = at(x);
      if (!p) vf::fail("no-storage", vf::cat("live address ", x, " has no storage"));
      where[p] = x;
      for (size_t i = 0; i < bytes; ++i)
        if ((uint8_t)p[i] != pat(stamp[x], i)) vf::fail("bytes-lost", vf::cat("byte ", i, " of live address ", x, " changed (", live.size(), " live)"));
    }
    if (where.size() != live.size()) vf::fail("overlap", "two live addresses share storage");
    char* last = nullptr;
    for (auto& [p, x] : where) { if (last && p < last + bytes) vf::fail("overlap", vf::cat("the storage of address ", x, " overlaps another live one")); last = p; }
  }
  std::string fingerprint() {
    std::ostringstream o; for (auto x : live) o << x << ',';
    o << '|' << blobs.size() << '|' << reopened; for (auto& [k, x] : hinted) o << k[1] << x;
    return o.str();
  }
};

void vf_job(const std::string& name, const std::map<std::string, long>& o, vf::Stats& st) {
  Context::instance().reg<vf::ZeroFillFactory>();
  Cfg c{o.at("page"), o.at("lane"), o.at("ele"), (DataTypes)o.at("dt"), (ZenFSBlobMMapType)o.at("mm"), o.at("record") != 0, o.at("via"), o.at("live")};
  vf::explore<H>(c, o.at("depth"), st);
}
