// C09: byte-pair merging applies the best-ranked applicable merge first, whatever the merge table and the word.
#define VF_MAIN
#include "vf.hpp"
#include <fstream>
#include <nlohmann/json.hpp>
#include "mllm/utils/Log.hpp"
#include "mllm/preprocessor/tokenizers/BPE.hpp"
#include "mllm/preprocessor/tokenizers/BPEUTF8.hpp"
#include "mllm/preprocessor/tokenizers/Unicode.hpp"
mllm::LogLevel mllm::Logger::level_ = (mllm::LogLevel)9;
using namespace mllm::preprocessor;
using W = std::vector<int>;                        // a word: letters 0, 1, 2
using Merge = std::pair<W, W>;

static std::vector<std::string> letter;            // how each letter is written
static std::string enc(const W& w) { std::string r; for (int i : w) r += letter[i]; return r; }

static std::vector<W> words(int al, size_t lo, size_t hi) {
  std::vector<W> r, cur{{}};
  for (size_t n = 0; n <= hi; ++n) {
    if (n >= lo) r.insert(r.end(), cur.begin(), cur.end());
    std::vector<W> nx;
    for (auto& w : cur) for (int c = 0; c < al; ++c) { nx.push_back(w); nx.back().push_back(c); }
    cur.swap(nx);
  }
  return r;
}

static std::vector<std::string> want(const std::vector<Merge>& ms, const W& w) {
  std::vector<W> p; for (int c : w) p.push_back({c});
  for (;;) {
    size_t best = ms.size();
    for (size_t i = 0; i + 1 < p.size(); ++i) for (size_t k = 0; k < best; ++k) if (ms[k].first == p[i] && ms[k].second == p[i + 1]) best = k;
    if (best == ms.size()) break;
    for (size_t i = 0; i + 1 < p.size(); ++i)
      if (p[i] == ms[best].first && p[i + 1] == ms[best].second) { p[i].insert(p[i].end(), p[i + 1].begin(), p[i + 1].end()); p.erase(p.begin() + i + 1); }
  }
  std::vector<std::string> r; for (auto& x : p) r.push_back(enc(x));
  return r;
}
template<class V> static std::string show(const V& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : "|") + x; return s; }

void vf_job(const std::string& name, const std::map<std::string, long>& o, vf::Stats& st) {
  auto g = [&](const char* k, long d) { auto i = o.find(k); return i == o.end() ? d : i->second; };
  vf::Cases c{st};
  long part = g("part", 0), parts = g("parts", 1), al = g("alpha", 2);
  const std::string L[3][3] = {{"a", "b", "c"}, {"\xc4\xa0", "\xe4\xb8\xad", "\xf0\x9f\x98\x80"}, {"a", "\xc3\xa9", "\xe2\x96\x81"}};
  for (auto& s : L[g("letters", 0)]) letter.push_back(s);
  std::string file = vf::cat(getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp", "/v.json");
  if (name == "files") {
    auto put = [&](const std::string& s) { std::ofstream(file) << s; };
    auto refused = [&](const std::string& what) {
      c.one("files", what, [&] {
        bool w = false, u = false;
        vf::accepted([&] { BPE b; w = b.initFromSentencePieceJson(file); }); vf::accepted([&] { BPEUTF8 b; u = b.initFromSentencePieceJson(file); });
        if (w || u) vf::fail("bad-file-accepted", what);
      });
    };
    unlink(file.c_str()); refused("no such file");
    std::string good = R"({"model":{"vocab":{"a":0},"merges":[]},"added_tokens":[]})";
    for (size_t n = 0; n < good.size(); ++n) { put(good.substr(0, n)); refused(vf::cat("cut after ", n, " bytes")); }
    for (auto s : {"{}", R"({"model":{}})", R"({"model":{"vocab":{}}})", R"({"model":{"merges":[]}})", R"({"vocab":{},"merges":[]})"}) { put(s); refused(s); }
    return;
  }
  std::vector<Merge> all;
  for (auto& x : words(al, 1, g("half", 2))) for (auto& y : words(al, 1, g("half", 2))) if ((long)(x.size() + y.size()) <= g("merged", 3)) all.push_back({x, y});
  auto ws = words(al, 1, g("len", 5)), vw = words(al, 1, g("merged", 3));
  size_t n = g("merges", 2); std::vector<size_t> ix; long cnt = 0;
  std::function<void()> rec = [&] {
    if (st.viol.size() >= 6) return;
    if (cnt++ % parts == part) {
      std::vector<Merge> ms; for (auto i : ix) ms.push_back(all[i]);
      std::vector<std::string> desc;
      nlohmann::json j; j["model"]["vocab"] = nlohmann::json::object(); j["model"]["merges"] = nlohmann::json::array(); j["added_tokens"] = nlohmann::json::array();
      long id = 0;
      for (auto& w : vw) j["model"]["vocab"][enc(w)] = (id++ * 7) % (long)vw.size() + 3 * (id % 2);   // ids in no particular order
      { std::set<long> used; for (auto& [k, v] : j["model"]["vocab"].items()) { long x = v; while (used.count(x)) ++x; used.insert(x); v = x; } }
      j["added_tokens"].push_back({{"id", 5000}, {"content", "<|" + letter[0] + "|>"}});
      bool arr = g("array", -1) >= 0 ? g("array", -1) : cnt % 2;
      for (auto& m : ms) {
        desc.push_back(enc(m.first) + "+" + enc(m.second));
        if (arr) j["model"]["merges"].push_back({enc(m.first), enc(m.second)}); else j["model"]["merges"].push_back(enc(m.first) + " " + enc(m.second));
      }
      { std::ofstream f(file); f << j; }
      auto b = std::make_unique<BPE>(); auto u = std::make_unique<BPEUTF8>();
      if (!b->initFromSentencePieceJson(file) || !u->initFromSentencePieceJson(file)) { st.bad({"load", "vocabulary refused"}, j.dump()); return; }
      if (ix.size() <= 1) c.one("vocabulary", vf::cat("merges ", show(desc)), [&] {
        auto look = [&](const std::string& k, long v) {
          auto wk = utf8string2WideString(k);
          if (b->_lookup_vocab(wk) != v || u->_lookup_vocab(k) != v) vf::fail("id", vf::cat(k, ": ", b->_lookup_vocab(wk), ", ", u->_lookup_vocab(k), " instead of ", v));
          if (b->_lookup_inverse_vocab(v) != wk || u->_lookup_inverse_vocab(v) != k) vf::fail("token", vf::cat(v, " is not ", k));
        };
        for (int again = 0; again < 2; ++again) {
          for (auto& [k, v] : j["model"]["vocab"].items()) look(k, v);
          look("<|" + letter[0] + "|>", 5000);
          for (long bad : {-1L, 9999L}) if (!b->_lookup_inverse_vocab(bad).empty() || !u->_lookup_inverse_vocab(bad).empty()) vf::fail("unknown-id", vf::cat(bad));
          b->_lookup_vocab(L"nothing"); u->_lookup_vocab("nothing");
        }
      });
      for (auto& w : ws) c.one("words", vf::cat("merges ", show(desc), " word ", enc(w)), [&] {
        auto r = want(ms, w);
        std::vector<std::string> got; for (auto& x : b->_bpe(utf8string2WideString(enc(w)))) got.push_back(wideString2Utf8String(x));
        if (got != r) vf::fail("merge", vf::cat("wide: ", show(got), " instead of ", show(r)));
        auto g8 = u->_bpe(enc(w));
        if (g8 != r) vf::fail("merge8", vf::cat("utf8: ", show(g8), " instead of ", show(r)));
      });
    }
    if (ix.size() == n) return;
    for (size_t i = 0; i < all.size(); ++i) if (std::find(ix.begin(), ix.end(), i) == ix.end()) { ix.push_back(i); rec(); ix.pop_back(); }
  };
  rec();
}
