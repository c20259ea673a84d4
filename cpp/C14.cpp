// C14: the on-device tokenizers split text as their pattern says, use the right token for every piece, and decode what they encode.
#define VF_MAIN
#include "vf.hpp"
#include <algorithm>
#include <fstream>
#include <nlohmann/json.hpp>
#include "mllm/utils/Log.hpp"
#include "mllm/models/qwen3/tokenization_qwen3.hpp"
#include "mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp"
#include "mllm/models/qwen_ascend/tokenization_qwen_ascend.hpp"
#include "mllm/models/qwen_npu/tokenization_qwen.hpp"
#include "mllm/models/qwen2vl/tokenization_qwen2vl.hpp"
#include "mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp"
#include "mllm/models/smollm3_3B/tokenization_smollm3.hpp"
#include "mllm/models/deepseek_ocr/tokenization_deepseek_ocr.hpp"
#include "mllm/models/minicpm4/tokenization_minicpm4.hpp"
#include "mllm/models/llama/tokenization_tiny_llama.hpp"
mllm::LogLevel mllm::Logger::level_ = (mllm::LogLevel)9;
using namespace mllm;
using S = std::string; using V = std::vector<S>; using U = std::u32string;

static S enc(char32_t c) {
  S r;
  if (c < 0x80) r += (char)c;
  else if (c < 0x800) { r += (char)(0xC0 | (c >> 6)); r += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { r += (char)(0xE0 | (c >> 12)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
  else { r += (char)(0xF0 | (c >> 18)); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
  return r;
}
static S enc(const U& u) { S r; for (auto c : u) r += enc(c); return r; }
static U dec(const S& s) {
  U r;
  for (size_t i = 0; i < s.size();) {
    unsigned char b = s[i]; int n = b < 0x80 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4;
    char32_t c = n == 1 ? b : b & (0xFF >> (n + 1));
    for (int k = 1; k < n; ++k) c = (c << 6) | (s[i + k] & 63);
    r += c; i += n;
  }
  return r;
}

// ------------------------------------------------------------------ the split patterns, run by a backtracking matcher
static bool L(char32_t c) { return (c < 128 && isalpha(c)) || c == 0xe9 || c == 0x4e2d; }
static bool N(char32_t c) { return c < 128 && isdigit(c); }
static bool Sp(char32_t c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool NL(char32_t c) { return c == '\n' || c == '\r'; }
struct Item { std::function<bool(char32_t)> in; int lo, hi; };
struct Alt { std::vector<Item> items; bool not_before_nonspace = false; };
static constexpr int kMany = 1 << 20;

static size_t match(const Alt& a, size_t k, const U& t, size_t at) {       // end of the match, or npos
  if (k == a.items.size()) return a.not_before_nonspace && at < t.size() && !Sp(t[at]) ? U::npos : at;
  int n = 0; auto& it = a.items[k];
  while (n < it.hi && at + n < t.size() && it.in(t[at + n])) ++n;
  for (; n >= it.lo; --n) if (auto e = match(a, k + 1, t, at + n); e != U::npos) return e;
  return U::npos;
}
static std::vector<U> pieces(const std::vector<Alt>& p, const U& t) {
  std::vector<U> r;
  for (size_t i = 0; i < t.size();) {
    size_t e = U::npos;
    for (auto& a : p) if ((e = match(a, 0, t, i)) != U::npos) break;
    if (e == U::npos || e == i) throw std::runtime_error("reference: no alternative matches");
    r.push_back(t.substr(i, e - i)); i = e;
  }
  return r;
}
static Alt lit(const char* s, bool icase) {
  Alt a;
  for (; *s; ++s) { char c = *s; a.items.push_back({[=](char32_t x) { return x == (char32_t)c || (icase && x < 128 && tolower(x) == c); }, 1, 1}); }
  return a;
}
static std::vector<Alt> pattern(const S& kind) {
  std::vector<Alt> p;
  auto blank = [](char32_t c) { return c == ' '; };
  auto other = [](char32_t c) { return !Sp(c) && !L(c) && !N(c); };
  for (auto s : {"'s", "'t", "'re", "'ve", "'m", "'ll", "'d"}) p.push_back(lit(s, kind != "gpt2"));
  if (kind == "gpt2") {
    p.push_back({{{blank, 0, 1}, {L, 1, kMany}}}); p.push_back({{{blank, 0, 1}, {N, 1, kMany}}}); p.push_back({{{blank, 0, 1}, {other, 1, kMany}}});
  } else {
    p.push_back({{{[](char32_t c) { return !NL(c) && !L(c) && !N(c); }, 0, 1}, {L, 1, kMany}}});
    p.push_back({{{N, 1, 1}}});
    p.push_back({{{blank, 0, kind == "qwen" ? 1 : 0}, {other, 1, kMany}, {NL, 0, kMany}}});
    p.push_back({{{Sp, 0, kMany}, {NL, 1, kMany}}});
  }
  p.push_back({{{Sp, 1, kMany}}, true}); p.push_back({{{Sp, 1, kMany}}});
  return p;
}

static char32_t byteChar(unsigned char b) {
  static std::vector<char32_t> m;
  if (m.empty()) { int n = 0; for (int i = 0; i < 256; ++i) m.push_back((i >= 33 && i <= 126) || (i >= 161 && i <= 172) || i >= 174 ? i : 256 + n++); }
  return m[b];
}

// ------------------------------------------------------------------ the tokenizers
struct Tk {
  S kind;                                          // qwen, qwen-noblank, gpt2, spm, spm-cond
  V special;
  S bos;
  std::function<V(const S&)> tokenize;
  std::function<std::vector<int64_t>(const S&)> ids;
  std::function<S(const std::vector<int64_t>&)> decode;
  bool decode_whole = true;                        // decodes sequences (not token by token)
  std::function<std::vector<int64_t>(const S&)> message;   // ids of a chat message
  S before, after;                                 // the chat template around the prompt
};
static std::vector<int64_t> tensorIds(Tensor t) { auto p = t.ptr<int64_t>(); return {p, p + t.shape()[1]}; }

template<class T> static Tk wide(std::shared_ptr<T> t, S kind, V special) {
  Tk k; k.kind = kind; k.special = special; k.decode_whole = false;
  k.tokenize = [t](const S& s) { V r; for (auto& w : t->tokenize(s)) { U u; for (auto c : w) u += (char32_t)c; r.push_back(enc(u)); } return r; };
  k.ids = [t](const S& s) { auto w = t->tokenize(s); return w.empty() ? std::vector<int64_t>{} : tensorIds(t->convert2Ids(w)); };
  k.decode = [t](const std::vector<int64_t>& v) { S r; for (auto i : v) { U u; for (auto c : t->detokenize(i)) u += (char32_t)c; r += enc(u); } return r; };
  return k;
}
template<class T> static Tk narrow(std::shared_ptr<T> t, S kind, V special) {
  Tk k; k.kind = kind; k.special = special;
  k.tokenize = [t](const S& s) { return t->tokenize(s); };
  k.ids = [t](const S& s) { return t->encode(s); };
  k.decode = [t](const std::vector<int64_t>& v) { return t->decode(v); };
  return k;
}
template<class T, class M> static void chat(Tk& k, std::shared_ptr<T> t) {
  S tp = M::message_template; auto at = tp.find("{{{prompt}}}"); k.before = tp.substr(0, at); k.after = tp.substr(at + 12);
  k.message = [t](const S& s) { M m; m.prompt = s; return tensorIds(t->convertMessage(m).at("sequence")); };
}

static Tk make(const S& n, const S& file) {
  V q{"<|im_end|>", "<|im_start|>", "<|endoftext|>"}, q3 = q; q3.push_back("<think>"); q3.push_back("</think>");
  using namespace mllm::models;
  if (n == "qwen3") { auto t = std::make_shared<qwen3::Qwen3Tokenizer>(file); auto k = wide(t, "qwen", q3); chat<qwen3::Qwen3Tokenizer, qwen3::Qwen3Message>(k, t); return k; }
  if (n == "qwen3_moe") { auto t = std::make_shared<qwen3_moe::Qwen3Tokenizer>(file); auto k = wide(t, "qwen", q3); chat<qwen3_moe::Qwen3Tokenizer, qwen3_moe::Qwen3Message>(k, t); return k; }
  if (n == "qwen_ascend") {
    auto t = std::make_shared<qwen_ascend::QwenAscendTokenizer>(file); auto k = wide(t, "qwen", q3); chat<qwen_ascend::QwenAscendTokenizer, qwen_ascend::QwenAscendMessage>(k, t);
    k.decode = [t](const std::vector<int64_t>& v) { return t->decode(v); }; k.decode_whole = true; return k;
  }
  if (n == "qwen_npu") {
    S mf = file + ".merges"; std::ofstream(mf) << "#version\na b\n";
    auto t = std::make_shared<qwen_npu::QwenTokenizer>(file, mf); auto k = wide(t, "qwen-noblank", q); chat<qwen_npu::QwenTokenizer, qwen_npu::QwenMessage>(k, t); return k;
  }
  if (n == "qwen2vl") return wide(std::make_shared<qwen2vl::Qwen2VLTokenizer>(file), "qwen", q);
  if (n == "minicpmo") return wide(std::make_shared<minicpmo::MiniCPMOTokenizer>(file), "qwen", q);
  if (n == "smollm3") return narrow(std::make_shared<smollm3::SmolLM3Tokenizer>(file), "gpt2", {"<|im_end|>", "<|im_start|>", "<think>", "</think>"});
  if (n == "deepseek_ocr") return narrow(std::make_shared<deepseek_ocr::DpskOcrTokenizer>(file), "gpt2", {"<｜end▁of▁sentence｜>", "<image>", "<|User|>"});
  if (n == "minicpm4") { auto t = std::make_shared<minicpm4::MiniCPM4Tokenizer>(file); auto k = narrow(t, "spm", q); chat<minicpm4::MiniCPM4Tokenizer, minicpm4::MiniCPM4Message>(k, t); return k; }
  auto k = wide(std::make_shared<llama::TinyLlamaTokenizer>(file), "spm-cond", {"<s>"}); k.bos = "<s>"; return k;
}

// ------------------------------------------------------------------ reference
static V bpe(const std::map<std::pair<S, S>, int>& rank, const S& w) {
  V p; for (auto c : dec(w)) p.push_back(enc(c));
  for (;;) {
    int best = 1 << 30; std::pair<S, S> m;
    for (size_t i = 0; i + 1 < p.size(); ++i) if (auto f = rank.find({p[i], p[i + 1]}); f != rank.end() && f->second < best) { best = f->second; m = f->first; }
    if (best == 1 << 30) return p;
    for (size_t i = 0; i + 1 < p.size(); ++i) if (p[i] == m.first && p[i + 1] == m.second) { p[i] += p[i + 1]; p.erase(p.begin() + i + 1); }
  }
}
static V reference(const Tk& k, const std::vector<Alt>& pat, const std::map<std::pair<S, S>, int>& rank, const S& t) {
  V r; if (!k.bos.empty()) r.push_back(k.bos);
  S plain;
  auto flush = [&] {
    if (plain.empty()) return;
    V words;
    if (k.kind.substr(0, 3) == "spm") {
      U u = dec(plain), w; for (auto c : u) w += c == ' ' ? U"\u2581" : U(1, c);
      if (k.kind == "spm" || w[0] != U'\u2581') w = U"\u2581" + w;
      words.push_back(enc(w));
    } else for (auto& p : pieces(pat, dec(plain))) { S m; for (unsigned char b : enc(p)) m += enc(byteChar(b)); words.push_back(m); }
    for (auto& w : words) for (auto& x : bpe(rank, w)) r.push_back(x);
    plain.clear();
  };
  for (size_t i = 0; i < t.size();) {
    size_t best = 0;
    for (auto& s : k.special) if (s.size() > best && t.compare(i, s.size(), s) == 0) best = s.size();
    if (best) { flush(); r.push_back(t.substr(i, best)); i += best; } else plain += t[i++];
  }
  flush();
  return r;
}

static S show(const V& v) { S s; for (auto& x : v) s += (s.empty() ? "" : "|") + x; return s; }
static S vis(const S& s) { S r; for (char c : s) r += c == '\n' ? S("\\n") : c == '\r' ? S("\\r") : c == '\t' ? S("\\t") : S(1, c); return r; }

void vf_job(const S& name, const std::map<S, long>& o, vf::Stats& st) {
  auto g = [&](const char* k, long d) { auto i = o.find(k); return i == o.end() ? d : i->second; };
  vf::Cases c{st};
  S tk = name.substr(0, name.find('/'));
  long part = g("part", 0), parts = g("parts", 1), merges = g("merges", 1);
  bool spm = tk == "minicpm4" || tk == "tiny_llama";
  V unit{"a", "s", "S", "1", " ", "\n", "\r", "\t", "'", ".", "\xc3\xa9"};
  if (g("few", 0)) unit = {"a", " ", "\n", "\t", "."};
  if (g("wide", 0)) unit = {"a", " ", "\xc3\xa9", "\xe4\xb8\xad", "\xef\xbf\xbd", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbd"};   // 1 to 4 bytes each
  if (g("contr", 0)) unit = {"'", "l", "L", "r", "e", "V", "m", "D", "t", " "};
  // ---- vocabulary
  S file = vf::cat(getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp", "/v.json");
  std::map<std::pair<S, S>, int> rank; std::map<S, int64_t> vocab;
  nlohmann::json j; j["model"]["vocab"] = nlohmann::json::object(); j["model"]["merges"] = nlohmann::json::array(); j["added_tokens"] = nlohmann::json::array();
  auto tok = [&](const S& s) { if (!vocab.count(s)) { int64_t id = vocab.size() + 1; vocab[s] = id; j["model"]["vocab"][s] = id; } };
  auto merge = [&](const S& a, const S& b) { tok(a + b); if (rank.emplace(std::make_pair(a, b), (int)rank.size()).second) j["model"]["merges"].push_back(a + " " + b); };
  V letters;
  if (spm) { for (int i = 33; i < 127; ++i) tok(S(1, (char)i)); for (auto s : {"\n", "\r", "\t", "\xc3\xa9", "\xe2\x96\x81", "\xe4\xb8\xad", "\xef\xbf\xbd", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbd"}) tok(s); for (auto& u : unit) letters.push_back(u == " " ? "\xe2\x96\x81" : u); }
  else {
    for (int i = 0; i < 256; ++i) tok(enc(byteChar(i)));
    for (auto& u : unit) {
      V b; for (unsigned char x : u) b.push_back(enc(byteChar(x)));
      S w = b[0]; for (size_t i = 1; i < b.size(); ++i) { if (merges) merge(w, b[i]); w += b[i]; }
      letters.push_back(w);
    }
  }
  if (merges) for (auto& a : letters) for (auto& b : letters) merge(a, b);
  if (merges > 1) for (size_t i = 0; i + 2 < letters.size(); ++i) merge(letters[i] + letters[i + 1], letters[i + 2]);
  nlohmann::json added = nlohmann::json::array(); int64_t id = 10000;
  auto special = [&](const S& s) { vocab[s] = id; j["added_tokens"].push_back({{"id", id}, {"content", s}}); id++; };
  for (auto s : {"<|im_end|>", "<|im_start|>", "<|endoftext|>", "<think>", "</think>", "<｜end▁of▁sentence｜>", "<image>", "<|User|>", "<s>"}) special(s);
  { std::ofstream f(file); f << j; }
  Tk k = make(tk, file);
  auto pat = pattern(k.kind);
  if (!g("contr", 0)) { unit.push_back(k.special[0]); if (g("few", 0) && k.special.size() > 1) unit.push_back(k.special[1]); }
  // ---- every text
  auto one = [&](const S& t) {
    c.one("text", vis(t), [&] {
      auto want = reference(k, pat, rank, t);
      auto got = k.tokenize(t);
      if (got != want) vf::fail("tokens:" + k.kind, vf::cat(vis(t), " became ", vis(show(got)), " instead of ", vis(show(want))));
      std::vector<int64_t> wid; for (auto& x : want) wid.push_back(vocab.at(x));
      if (auto i = k.ids(t); i != wid) vf::fail("ids:" + k.kind, vf::cat(vis(t), " has ids ", vf::seq(i), " instead of ", vf::seq(wid)));
      bool has_special = false; for (auto& s : k.special) has_special |= t.find(s) != S::npos;
      if (spm ? !has_special && tk == "minicpm4" : (k.decode_whole || merges))
        if (auto d = k.decode(wid); d != t) vf::fail("decode:" + k.kind, vf::cat(vis(t), " decodes to ", vis(d)));
    });
    if (k.message && g("chat", 0)) c.one("chat", vis(t), [&] {
      std::vector<int64_t> wid; for (auto& x : reference(k, pat, rank, k.before + t + k.after)) wid.push_back(vocab.at(x));
      if (auto i = k.message(t); i != wid) vf::fail("chat", vf::cat("the chat message for ", vis(t), " has ids ", vf::seq(i), " instead of ", vf::seq(wid)));
    });
  };
  size_t len = g("len", 3), depth = 0; S s;
  std::function<void()> rec = [&] {
    if (st.viol.size() >= 6) { st.exhaustive = false; return; }
    if (depth || part == 0) one(s);
    if (depth == len) return;
    for (size_t i = 0; i < unit.size(); ++i) {
      if (!depth && (long)(i % parts) != part) continue;
      auto n = s.size(); s += unit[i]; ++depth; rec(); --depth; s.resize(n);
    }
  };
  rec();
}
