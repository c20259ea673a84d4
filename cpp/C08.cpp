// C08: text is split around special tokens without loss, leftmost-longest; encodings convert back and forth.
#define VF_MAIN
#include "vf.hpp"
#include "mllm/utils/Log.hpp"
#include "mllm/preprocessor/tokenizers/AutoTokenizer.hpp"
#include "mllm/preprocessor/tokenizers/Unicode.hpp"
mllm::LogLevel mllm::Logger::level_ = (mllm::LogLevel)9;
using namespace mllm::preprocessor;

// Letters stand for code points; the narrow trie gets them encoded.
static std::string enc(uint32_t c) {
  std::string r;
  if (c < 0x80) r += (char)c;
  else if (c < 0x800) { r += (char)(0xC0 | (c >> 6)); r += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { r += (char)(0xE0 | (c >> 12)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
  else { r += (char)(0xF0 | (c >> 18)); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
  return r;
}
static std::string enc(const std::wstring& w) { std::string r; for (auto c : w) r += enc((uint32_t)c); return r; }
static std::string vis(const std::wstring& w) { std::string r; for (auto c : w) r += c < 0x80 ? std::string(1, (char)c) : vf::cat("U+", std::hex, (uint32_t)c); return r; }

static std::vector<std::wstring> want(const std::vector<std::wstring>& toks, const std::wstring& t) {
  std::vector<std::wstring> r; std::wstring plain;
  for (size_t i = 0; i < t.size();) {
    size_t best = 0;
    for (auto& k : toks) if (k.size() > best && t.compare(i, k.size(), k) == 0) best = k.size();
    if (best) { if (!plain.empty()) r.push_back(plain); plain.clear(); r.push_back(t.substr(i, best)); i += best; }
    else plain += t[i++];
  }
  if (!plain.empty()) r.push_back(plain);
  return r;
}

static std::vector<std::wstring> words(const std::wstring& al, size_t lo, size_t hi) {
  std::vector<std::wstring> r, cur{L""};
  for (size_t n = 0; n <= hi; ++n) {
    if (n >= lo) r.insert(r.end(), cur.begin(), cur.end());
    std::vector<std::wstring> nx;
    for (auto& w : cur) for (auto c : al) nx.push_back(w + c);
    cur.swap(nx);
  }
  return r;
}
template<class V, class F> static std::string show(const V& v, F f) { std::string s = "["; for (auto& x : v) s += (s.size() > 1 ? "|" : "") + f(x); return s + "]"; }

void vf_job(const std::string& name, const std::map<std::string, long>& o, vf::Stats& st) {
  auto g = [&](const char* k, long d) { auto i = o.find(k); return i == o.end() ? d : i->second; };
  vf::Cases c{st};
  long part = g("part", 0), parts = g("parts", 1);
  if (name.substr(0, 5) == "split") {
    std::wstring al = g("alpha", 2) == 2 ? L"ab" : L"abc";
    if (g("multi", 0)) al = {L'a', (wchar_t)0xe9, (wchar_t)0x4e2d, (wchar_t)0x1f600};
    al.resize(std::min<size_t>(al.size(), g("alpha", 2)));
    auto toks = words(al, 1, g("toklen", 3));
    auto texts = words(al + (g("other", 1) ? L"x" : L""), 0, g("textlen", 5));
    size_t sets = g("sets", 2);
    std::vector<size_t> ix; long n = 0;
    std::function<void(size_t)> rec = [&](size_t from) {
      if (st.viol.size() >= 6) return;
      if (n++ % parts == part) {
        std::vector<std::wstring> set; for (auto i : ix) set.push_back(toks[i]);
        Trie w; TrieUTF8 u;
        if (g("update", 0)) { w.update(set); std::vector<std::string> e; for (auto& s : set) e.push_back(enc(s)); u.update(e); }
        else for (size_t k = set.size(); k--;) { w.add(set[k]); u.add(enc(set[k])); }
        w.add(L""); u.add("");
        c.one("membership", show(set, vis), [&] {
          for (auto& t : toks) {
            bool is = std::find(set.begin(), set.end(), t) != set.end();
            if (w.isSpecialToken(t) != is || u.isSpecialToken(enc(t)) != is) vf::fail("membership", vf::cat(vis(t), " special: ", is));
          }
          if (w.isSpecialToken(L"") || u.isSpecialToken("")) vf::fail("empty-special", "the empty string is a special token");
        });
        for (auto& t : texts) {
          auto r = want(set, t);
          c.one("split", vf::cat("tokens ", show(set, vis), " text ", vis(t)), [&] {
            auto got = w.split(t);
            if (got != r) vf::fail("split", vf::cat("wide: ", show(got, vis), " instead of ", show(r, vis)));
            std::vector<std::string> e; for (auto& x : r) e.push_back(enc(x));
            auto gu = u.split(enc(t));
            if (gu != e) vf::fail("split8", vf::cat("utf8: ", show(gu, [](auto& s) { return s; }), " instead of ", show(r, vis)));
          });
        }
      }
      if (ix.size() == sets) return;
      for (size_t i = from; i < toks.size(); ++i) { ix.push_back(i); rec(i + 1); ix.pop_back(); }
    };
    rec(0);
  } else if (name == "codepoints") {
    TrieUTF8 u;
    for (uint32_t a = 0; a <= 0x10FFFF; a += 64) c.one("code points", vf::cat("block ", a), [&] {
      for (uint32_t p = a; p < a + 64; ++p) {
        if (p >= 0xD800 && p < 0xE000) continue;
        std::wstring w(1, (wchar_t)p); auto e = enc(p);
        if (wideString2Utf8String(w) != e) vf::fail("to-utf8", vf::cat("U+", std::hex, p));
        if (utf8string2WideString(e) != w) vf::fail("from-utf8", vf::cat("U+", std::hex, p));
        if (u.utf8String2Cpts(e) != std::vector<uint32_t>{p}) vf::fail("cpts", vf::cat("U+", std::hex, p));
        if (u.cpts2Utf8String({p}) != e) vf::fail("cpts-back", vf::cat("U+", std::hex, p));
      }
    });
  } else if (name == "mixed") {          // strings of code points at the edges of every encoding length
    std::wstring edge;
    for (uint32_t p : {0x1, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff}) edge += (wchar_t)p;
    TrieUTF8 u;
    for (auto& w : words(edge, 0, g("len", 4))) c.one("strings", vis(w), [&] {
      auto e = enc(w);
      if (wideString2Utf8String(w) != e) vf::fail("to-utf8", vis(w));
      if (utf8string2WideString(e) != w) vf::fail("from-utf8", vis(w));
      auto k = u.utf8String2Cpts(e);
      if (k.size() != w.size() || u.cpts2Utf8String(k) != e) vf::fail("cpts", vis(w));
    });
  } else if (name == "truncated") {      // any bytes: no read outside the string, every whole character of a valid prefix kept
    const unsigned char B[] = {0x41, 0x80, 0xbf, 0xc3, 0xdf, 0xe2, 0xef, 0xf0, 0xf4, 0xff};
    std::vector<std::string> cur{""};
    for (long n = 0; n <= g("len", 4); ++n) {
      std::vector<std::string> nx;
      for (auto& s : cur) {
        c.one("bytes", [&] { std::string h; for (unsigned char x : s) h += vf::cat(std::hex, (int)x, " "); return h; }(), [&] {
          for (std::string good : {"", "a", "\xc3\xa9", "\xf0\x9f\x98\x80"}) {
            auto* heap = new std::string(good + s);
            auto w = utf8string2WideString(*heap);
            auto k = utf8string2WideString(good);
            if (w.compare(0, k.size(), k)) vf::fail("prefix-lost", "a complete character before broken bytes was lost");
            delete heap;
          }
        });
        for (auto b : B) nx.push_back(s + (char)b);
      }
      cur.swap(nx);
    }
  } else if (name == "bytemap") {
    c.one("byte map", "256 bytes", [&] {
      std::unordered_map<std::wint_t, wchar_t> m; makeBytes2UnicodeMap(m);
      if (m.size() != 256) vf::fail("size", vf::cat(m.size()));
      std::set<wchar_t> seen; int next = 256;
      for (int b = 0; b < 256; ++b) {
        if (!m.count(b)) vf::fail("missing", vf::cat("byte ", b));
        bool plain = (b >= 33 && b <= 126) || (b >= 161 && b <= 172) || (b >= 174 && b <= 255);
        int w = plain ? b : next++;
        if (m[b] != w) vf::fail("map", vf::cat("byte ", b, " maps to ", (int)m[b], ", not ", w));
        if (!seen.insert(m[b]).second) vf::fail("ambiguous", vf::cat("byte ", b));
      }
    });
  }
}
