// C01: the on-device prefix tree returns only KV of the queried prefix.
#define VF_MAIN
#include "vf.hpp"
#include "mllm/engine/prefix_cache/RadixTree.hpp"
#include "mllm/utils/Log.hpp"
mllm::LogLevel mllm::Logger::level_ = (mllm::LogLevel)9;
using namespace mllm::prefix_cache;
using Key = std::pair<int64_t, std::vector<int64_t>>;

struct Cfg { std::vector<Key> keys, queries; int blocks; int ops; bool clear; };

struct H {
  const Cfg& c; RadixTree t;
  std::map<Key, std::pair<std::vector<vp_addr_t>, std::vector<vp_addr_t>>> ref;   // stored prefix -> last token's k, v
  static RadixTreeOptions opt(const Cfg& c) { RadixTreeOptions o; o.transformer_blocks_num = c.blocks; return o; }
  explicit H(const Cfg& c) : c(c), t(opt(c)) {}
  std::vector<vf::Act> actions() {
    std::vector<vf::Act> r;
    for (size_t i = 0; i < c.keys.size(); ++i) r.push_back({"insert", {(long)i}});
    if (c.clear) r.push_back({"clear", {}});
    return r;
  }
  vp_addr_t addr(int which, long key, int layer, int pos) const { return ((which * 100 + key) * 10 + layer) * 10 + pos + 1000; }
  void apply(const vf::Act& a) {
    if (a.op == "clear") { t.clear(); ref.clear(); return; }
    auto& [ns, toks] = c.keys[a.a[0]];
    RadixTreeNodeValue v;
    for (int b = 0; b < c.blocks; ++b) {
      std::vector<vp_addr_t> k, w;
      for (size_t i = 0; i < toks.size(); ++i) { k.push_back(addr(1, a.a[0], b, i)); w.push_back(addr(2, a.a[0], b, i)); }
      v.k_cache_addresses.emplace_back(k); v.v_cache_addresses.emplace_back(w);
    }
    {
      std::vector<int64_t> tmp = toks;                        // the caller's buffer dies after the call
      if (!t.insert(RadixTreeNodeKey(VectorView<int64_t>(tmp), ns), v)) vf::fail("insert-refused", "insert returned false");
      std::fill(tmp.begin(), tmp.end(), -7);
    }
    std::vector<int64_t> p;
    for (size_t i = 0; i < toks.size(); ++i) {
      p.push_back(toks[i]);
      std::vector<vp_addr_t> k, w;
      for (int b = 0; b < c.blocks; ++b) { k.push_back(addr(1, a.a[0], b, i)); w.push_back(addr(2, a.a[0], b, i)); }
      ref.emplace(Key{ns, p}, std::make_pair(k, w));
    }
  }
  void check() {
    for (auto& [ns, q] : c.queries) {
      auto r = t.search(RadixTreeNodeKey(VectorView<int64_t>(q), ns));
      size_t n = 0; std::vector<int64_t> p; std::vector<std::vector<vp_addr_t>> k(c.blocks), v(c.blocks);
      for (auto x : q) {
        p.push_back(x);
        auto it = ref.find({ns, p});
        if (it == ref.end()) break;
        n++;
        for (int b = 0; b < c.blocks; ++b) { k[b].push_back(it->second.first[b]); v[b].push_back(it->second.second[b]); }
      }
      auto d = vf::cat("lookup of ", vf::seq(q), " in namespace ", ns, ": ");
      if (r.success != (n > 0)) vf::fail("success", vf::cat(d, "success=", r.success, ", longest stored prefix is ", n));
      if ((size_t)r.matched_length != n) vf::fail("length", vf::cat(d, "matched ", r.matched_length, ", longest stored prefix is ", n));
      if (r.k_cache_addresses.size() != (size_t)c.blocks || r.v_cache_addresses.size() != (size_t)c.blocks) vf::fail("layers", d + "wrong number of layers");
      for (int b = 0; b < c.blocks; ++b) {
        if (r.k_cache_addresses[b] != k[b]) vf::fail("k-addresses", vf::cat(d, "layer ", b, " gives ", vf::seq(r.k_cache_addresses[b]), " instead of ", vf::seq(k[b])));
        if (r.v_cache_addresses[b] != v[b]) vf::fail("v-addresses", vf::cat(d, "layer ", b, " gives ", vf::seq(r.v_cache_addresses[b]), " instead of ", vf::seq(v[b])));
      }
      long sum = 0; for (auto& [node, len] : r.path) sum += len;
      if (n && sum != (long)n) vf::fail("path", vf::cat(d, "the returned path covers ", sum, " tokens, not ", n));
    }
  }
  static std::string canon(RadixTreeNode* n) {
    std::vector<std::string> ch;
    for (auto& [k, c] : n->children) {
      if (!(k == c->key)) vf::fail("child-key", "a child is filed under a key that is not its own");
      if (c->parent != n) vf::fail("parent", "a child's parent pointer does not lead to its parent");
      ch.push_back(canon(c));
    }
    std::sort(ch.begin(), ch.end());
    std::string s = "(" + std::to_string(n->key.extra_key);
    for (auto t : n->key.token_ids) s += " " + std::to_string(t);
    for (auto& l : n->value.k_cache_addresses) for (auto a : l) s += "," + std::to_string(a);
    for (auto& x : ch) s += x;
    return s + ")";
  }
  std::string fingerprint() { auto r = t.search(RadixTreeNodeKey(VectorView<int64_t>(std::vector<int64_t>{}), 0)); return canon(r.path.at(0).first); }
};

static void words(int alpha, int len, std::vector<std::vector<int64_t>>& out) {
  std::vector<std::vector<int64_t>> cur{{}};
  for (int l = 0; l < len; ++l) {
    std::vector<std::vector<int64_t>> nx;
    for (auto& w : cur) for (int a = 1; a <= alpha; ++a) { auto x = w; x.push_back(a); nx.push_back(x); out.push_back(x); }
    cur = nx;
  }
}

void vf_job(const std::string& name, const std::map<std::string, long>& o, vf::Stats& st) {
  Cfg c; c.blocks = o.at("blocks"); c.clear = o.at("clear");
  std::vector<std::vector<int64_t>> w, q;
  words(o.at("alpha"), o.at("len"), w);
  words(o.at("alpha"), o.at("len") + 1, q);
  for (long ns = 0; ns < o.at("ns"); ++ns) {
    for (auto& x : w) if ((long)x.size() >= o.at("minlen")) c.keys.push_back({ns, x});
    for (auto& x : q) c.queries.push_back({ns, x});
    c.queries.push_back({ns, {}});
  }
  if (o.count("few")) {     // a handful of long keys that branch at every place, to greater depth
    c.keys = {{0, {1, 2, 3, 4}}, {0, {1, 2, 3, 5}}, {0, {1, 2}}, {0, {1, 2, 4, 4}}, {0, {2, 3, 4}}, {0, {1}}, {1, {1, 2, 3, 4}}, {1, {1, 2, 5}},
              {0, {1, 2, 3, 4, 5, 6}}, {0, {4}}};
    c.queries.clear();
    for (long ns : {0, 1}) for (auto& x : c.keys) {
      auto y = x.second; c.queries.push_back({ns, y});
      for (size_t i = 0; i < y.size(); ++i) { auto z = y; z.erase(z.begin() + i); c.queries.push_back({ns, z}); }
      y.push_back(4); c.queries.push_back({ns, y});
    }
  }
  vf::explore<H>(c, o.at("depth"), st);
}
