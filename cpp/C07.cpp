// C07: shape expressions: every text up to a length, every token string up to a length, every tree up to a size.
#define VF_MAIN
#include "vf.hpp"
#include <cmath>
#include <cstdint>
#include <memory>
#include <optional>
#include "mllm/compile/symbolic_expr/Eval.hpp"
#include "mllm/compile/symbolic_expr/Parser.hpp"
using namespace mllm;

extern "C" void __real_exit(int);
extern "C" void __wrap_exit(int c) { if (vf::refuse_to) longjmp(*vf::refuse_to, 1); __real_exit(c); }

struct Bad {};        // malformed
struct NoValue {};    // well-formed, but this binding gives it no value
struct Skip {};       // the value leaves the range of the arithmetic

struct Tok { char k; std::string s; };     // 'n' number, 'v' variable, 'k' keyword, otherwise the character itself
using Toks = std::vector<Tok>;

static Toks lex(const std::string& s) {
  auto al = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; };
  auto di = [](char c) { return c >= '0' && c <= '9'; };
  Toks r;
  for (size_t i = 0; i < s.size();) {
    size_t j = i;
    if (s[i] == ' ') { ++i; continue; }
    if (al(s[i])) {
      while (j < s.size() && (al(s[j]) || di(s[j]))) ++j;
      auto w = s.substr(i, j - i);
      r.push_back({w == "floor" || w == "ceil" || w == "abs" ? 'k' : 'v', w});
    } else if (di(s[i]) || s[i] == '.') {
      int dots = 0, digits = 0;
      while (j < s.size() && (di(s[j]) || s[j] == '.')) { (s[j] == '.' ? dots : digits)++; ++j; }
      if (dots > 1 || !digits) throw Bad();
      r.push_back({'n', s.substr(i, j - i)});
    } else if (strchr("+-*/%()", s[i]) && s[i]) { r.push_back({s[i], ""}); j = i + 1; }
    else throw Bad();
    i = j;
  }
  return r;
}

struct Tree { char op; std::string s; std::shared_ptr<Tree> l, r; };   // leaf: 'n' / 'v'; unary: 'k'
using P = std::shared_ptr<Tree>;

// The last operator outside parentheses with the loosest binding is the root.
static P parse(const Toks& t, size_t b, size_t e) {
  if (b >= e) throw Bad();
  int d = 0; std::optional<size_t> add, mul;
  for (size_t i = b; i < e; ++i) {
    char k = t[i].k;
    if (k == '(') d++;
    else if (k == ')') { if (--d < 0) throw Bad(); }
    else if (!d && (k == '+' || k == '-')) add = i;
    else if (!d && (k == '*' || k == '/' || k == '%')) mul = i;
  }
  if (d) throw Bad();
  if (auto i = add ? add : mul) return std::make_shared<Tree>(Tree{t[*i].k, "", parse(t, b, *i), parse(t, *i + 1, e)});
  if (t[b].k == 'n' || t[b].k == 'v') { if (e - b != 1) throw Bad(); return std::make_shared<Tree>(Tree{t[b].k, t[b].s}); }
  if (t[b].k == '(') { if (t[e - 1].k != ')') throw Bad();
    int n = 0; for (size_t i = b; i < e; ++i) { n += t[i].k == '('; n -= t[i].k == ')'; if (!n && i + 1 < e) throw Bad(); }
    return parse(t, b + 1, e - 1); }
  if (t[b].k == 'k') { if (b + 1 >= e || t[b + 1].k != '(') throw Bad();
    int n = 0; for (size_t i = b + 1; i < e; ++i) { n += t[i].k == '('; n -= t[i].k == ')'; if (!n && i + 1 < e) throw Bad(); }
    return std::make_shared<Tree>(Tree{'k', t[b].s, parse(t, b + 2, e - 1)}); }
  throw Bad();
}

static float val(const P& p, const SymExprDict& d) {
  if (p->op == 'n') return p->s.find('.') == std::string::npos ? (float)std::stoi(p->s) : std::strtof(p->s.c_str(), nullptr);
  if (p->op == 'v') { auto i = d.find(p->s); if (i == d.end()) throw NoValue(); return i->second; }
  if (p->op == 'k') { float x = val(p->l, d); return p->s == "floor" ? std::floor(x) : p->s == "ceil" ? std::ceil(x) : std::fabs(x); }
  float a = val(p->l, d), b = val(p->r, d);
  switch (p->op) {
    case '+': return a + b;
    case '-': return a - b;
    case '*': return a * b;
    case '/': if (b == 0) throw Skip(); return a / b;
  }
  if (!(std::fabs(a) < 2e9f && std::fabs(b) < 2e9f)) throw Skip();
  int x = (int)a, y = (int)b;
  if (!y) throw NoValue();
  return (float)(x % y);
}

static bool hasVar(const P& p) { return p && (p->op == 'v' || hasVar(p->l) || hasVar(p->r)); }

static SymExpr make(const P& p) {
  if (p->op == 'n') return p->s.find('.') == std::string::npos ? SymExpr((int32_t)std::stoi(p->s)) : SymExpr(std::strtof(p->s.c_str(), nullptr));
  if (p->op == 'v') return SymExpr(std::make_shared<VarAST>(p->s));
  auto l = make(p->l);
  if (p->op == 'k') return p->s == "floor" ? l.floor() : p->s == "ceil" ? l.ceil() : l.abs();
  auto r = make(p->r);
  switch (p->op) { case '+': return l + r; case '-': return l - r; case '*': return l * r; case '/': return l / r; }
  return l % r;
}

static const std::vector<SymExprDict> kBind = {
  {{"a", 7.f}, {"b", 3.f}}, {{"a", 4.5f}, {"b", -2.f}}, {{"a", 0.f}, {"b", 1000.f}}, {{"b", -5.f}}, {}};

static void agree(SymExpr& e, const P& p, const char* how) {
  if (e.isStatic() == hasVar(p)) vf::fail("static", vf::cat(how, ": isStatic() is ", e.isStatic(), ", variables: ", hasVar(p)));
  for (auto& d : kBind) {
    float want, got = 0; bool none = false;
    try { want = val(p, d); } catch (NoValue&) { none = true; } catch (Skip&) { continue; }
    bool ok = vf::accepted([&] { got = e.eval(d); });
    if (none && ok) vf::fail("value-from-nothing", vf::cat(how, ": no value exists for this binding, but ", got, " was returned"));
    if (none) continue;
    if (!ok) vf::fail("refused", vf::cat(how, ": evaluation refused, ", want, " expected"));
    if (!(got == want)) vf::fail("value", vf::cat(how, ": ", got, " instead of ", want));
    if (std::fabs(want) < 2e9f && e.evalAsInt(d) != (int)want) vf::fail("int-value", vf::cat(how, ": evalAsInt ", e.evalAsInt(d), " instead of ", (int)want));
  }
}

static void text(const std::string& s) {
  P p;
  try { auto t = lex(s); p = parse(t, 0, t.size()); } catch (Bad&) {}
  SymExpr e;
  bool ok = vf::accepted([&] { e = SymExpr(s); });
  if (!p && ok) vf::fail("malformed-accepted", vf::cat("'", s, "' is malformed but was accepted"));
  if (p && !ok) vf::fail("wellformed-refused", vf::cat("'", s, "' was refused"));
  if (!p) return;
  agree(e, p, "parsed");
}

static void tree(const P& p) {
  auto e = make(p);
  agree(e, p, "built");
  auto s = e.str();
  SymExpr e2;
  if (!vf::accepted([&] { e2 = SymExpr(s); })) vf::fail("str-refused", vf::cat("'", s, "' (printed form) was refused"));
  agree(e2, p, "printed and parsed again");
}

static std::string show(const P& p) {
  if (p->op == 'n' || p->op == 'v') return p->s;
  if (p->op == 'k') return p->s + "(" + show(p->l) + ")";
  return "(" + show(p->l) + p->op + show(p->r) + ")";
}

void vf_job(const std::string& name, const std::map<std::string, long>& o, vf::Stats& st) {
  auto g = [&](const char* k, long d) { auto i = o.find(k); return i == o.end() ? d : i->second; };
  vf::Cases c{st};
  long part = g("part", 0), parts = g("parts", 1);
  if (name.substr(0, 5) == "chars" || name.substr(0, 6) == "tokens") {
    std::vector<std::string> al = name[0] == 'c' ? std::vector<std::string>{"a", "1", ".", "+", "-", "*", "/", "%", "(", ")", " ", "#"}
        : g("wide", 0) ? std::vector<std::string>{" a ", " b ", " 2 ", " .5 ", " 3. ", " + ", " - ", " * ", " / ", " % ", " ( ", " ) ", " floor ", " ceil ", " abs ", " _a1 ", "\t"}
        : std::vector<std::string>{"a", "2", "+", "-", "*", "%", "(", ")"};
    size_t n = al.size(), len = g("len", 3);
    std::vector<size_t> ix;
    std::string s;
    std::function<void()> rec = [&] {
      if (st.viol.size() >= 6) { st.exhaustive = false; return; }
      if ((ix.empty() && part == 0) || ix.size()) c.one("text", s, [&] { text(s); });
      if (ix.size() == len) return;
      for (size_t i = 0; i < n; ++i) {
        if (ix.empty() && (long)(i % parts) != part) continue;
        ix.push_back(i); auto k = s.size(); s += al[i]; rec(); s.resize(k); ix.pop_back();
      }
    };
    rec();
  } else if (name.substr(0, 5) == "flat1") {     // operand (operator operand)*, the operators and grouping exhaustive
    long ops = g("ops", 5), idx = 0;
    const char* num[] = {"a", "7", "b", "2", "1.5", "3", "c"};
    std::function<void(std::string, int)> rec = [&](std::string s, int k) {
      if (idx++ % parts == part) c.one("chain", s, [&] { text(s); });
      if (k == ops) return;
      for (char op : {'+', '-', '*', '/', '%'}) rec(s + op + num[(k + 1) % 7], k + 1);
    };
    rec("a", 0); rec("9", 0);
  } else {                                        // every tree
    std::vector<P> leaves;
    for (auto s : {"a", "b", "3", "0.5"}) leaves.push_back(std::make_shared<Tree>(Tree{isalpha(s[0]) ? 'v' : 'n', s}));
    long size = g("size", 3);
    std::vector<std::vector<P>> by(size + 1); by[0] = leaves;
    for (long k = 1; k <= size; ++k) {
      for (auto& x : by[k - 1]) for (auto u : {"floor", "ceil", "abs"}) by[k].push_back(std::make_shared<Tree>(Tree{'k', u, x}));
      for (long i = 0; i < k; ++i) for (auto& x : by[i]) for (auto& y : by[k - 1 - i]) for (char op : {'+', '-', '*', '/', '%'})
        by[k].push_back(std::make_shared<Tree>(Tree{op, "", x, y}));
    }
    for (long k = 0; k <= size; ++k) for (size_t i = 0; i < by[k].size(); ++i)
      if ((long)(i % parts) == part) c.one("tree", show(by[k][i]), [&] { tree(by[k][i]); });
  }
}
