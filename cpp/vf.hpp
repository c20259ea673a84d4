// Shared machinery of the C++ checks: explicit-state exploration of real objects by replay.
//
// A harness class H has
//   H(const Cfg&)                     builds the real object and the reference
//   std::vector<Act> actions()        enabled actions in the current state
//   void apply(const Act&)            runs one action on both; vf::fail() on disagreement
//   void check()                      invariant of the current state
//   std::string fingerprint()         canonical state (equal fingerprints are merged)
// explore() enumerates every action sequence up to a depth, breadth first, merging equal states.  Every state is
// reached by executing its history on a fresh real object, so every trace is a trace of the implementation.
//
// The history being executed is kept in a file-backed journal, so that when the process dies (sanitizer report,
// abort, signal, hang) the driver still knows which history did it.
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {

struct Violation { std::string sig, msg; };
inline void (*on_abort)() = nullptr;
inline jmp_buf* refuse_to = nullptr;     // where abort() goes instead of ending the process

[[noreturn]] inline void fail(const std::string& sig, const std::string& msg) { throw Violation{sig, msg}; }

template<class... A> std::string cat(const A&... a) { std::ostringstream o; (o << ... << a); return o.str(); }
template<class V> std::string seq(const V& v) {
  std::ostringstream o; o << '['; bool f = true;
  for (auto& x : v) { if (!f) o << ','; f = false; o << x; }
  o << ']'; return o.str();
}

struct Act {
  std::string op; std::vector<long> a;
  std::string str() const { std::string s = op; for (auto x : a) s += "," + std::to_string(x); return s; }
};

// ---------------------------------------------------------------- journal
inline char* journal = nullptr;
constexpr size_t kJournal = 1 << 16;
inline void note(const std::string& s) {
  if (!journal) return;
  size_t n = s.size() < kJournal - 1 ? s.size() : kJournal - 1;
  memcpy(journal, s.data(), n); journal[n] = 0;
}

inline std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

// ---------------------------------------------------------------- results
struct Stats {
  long states = 0, transitions = 0, depth_done = 0;
  bool exhaustive = true;
  std::map<std::string, long> actions_seen;
  std::vector<std::string> samples;
  std::map<std::string, std::pair<std::string, std::string>> viol;   // sig -> msg, history
  void bad(const Violation& v, const std::string& hist) { viol.emplace(v.sig, std::make_pair(v.msg, hist)); }
};

inline void write_out(const Stats& s) {
  const char* p = getenv("VF_OUT");
  FILE* f = p ? fopen(p, "w") : stdout;
  fprintf(f, "{\"states\":%ld,\"transitions\":%ld,\"validated\":%ld,\"depth_done\":%ld,\"exhaustive\":%s,\"actions_seen\":{",
          s.states, s.transitions, s.transitions, s.depth_done, s.exhaustive ? "true" : "false");
  bool first = true;
  for (auto& [k, n] : s.actions_seen) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", esc(k).c_str(), n); first = false; }
  fprintf(f, "},\"samples\":[");
  first = true;
  for (auto& x : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(x).c_str()); first = false; }
  fprintf(f, "],\"violations\":[");
  first = true;
  for (auto& [k, v] : s.viol) {
    fprintf(f, "%s{\"sig\":\"%s\",\"msg\":\"%s\",\"hist\":\"%s\"}", first ? "" : ",", esc(k).c_str(), esc(v.first).c_str(),
            esc(v.second).c_str());
    first = false;
  }
  fprintf(f, "]}\n");
  if (p) fclose(f);
}

// ---------------------------------------------------------------- limits
inline int hang_s = 10;
inline void on_alarm(int) { static const char m[] = "VF-HANG\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }
inline void arm() {     // processor time; a process that only waits gets four times as long
  itimerval t{}; t.it_value.tv_sec = hang_s; setitimer(ITIMER_PROF, &t, nullptr);
  t.it_value.tv_sec = hang_s * 4; setitimer(ITIMER_REAL, &t, nullptr);
}

inline void init() {
  signal(SIGPROF, on_alarm); signal(SIGALRM, on_alarm);
  if (const char* p = getenv("VF_JOURNAL")) {
    int fd = open(p, O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, kJournal) == 0)
      journal = (char*)mmap(nullptr, kJournal, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (journal == MAP_FAILED) journal = nullptr;
    if (fd >= 0) close(fd);
  }
}

void arm_maybe();

// ---------------------------------------------------------------- explorer
inline std::string show(const std::vector<Act>& h) { std::string s; for (auto& a : h) { if (!s.empty()) s += ' '; s += a.str(); } return s; }

template<class H, class Cfg>
void explore(const Cfg& cfg, int max_depth, Stats& st, long max_states = 1L << 40) {
  std::unordered_set<std::string> seen;
  std::vector<std::vector<Act>> frontier{{}}, next;
  auto run = [&](const std::vector<Act>& h, std::vector<Act>* acts, std::string* fp) {
    note(show(h)); arm();
    try {
      H x(cfg);
      for (auto& a : h) x.apply(a);
      x.check();          // every proper prefix of this history was checked when it was reached
      *fp = x.fingerprint();
      if (acts) *acts = x.actions();
      return true;
    } catch (const Violation& v) { st.bad(v, show(h)); }
    catch (const std::exception& e) { st.bad({"exception", cat("unexpected exception: ", e.what())}, show(h)); }
    return false;
  };
  std::string fp; std::vector<Act> acts;
  if (!run({}, &acts, &fp)) return;
  seen.insert(fp); st.states++;
  std::vector<std::vector<Act>> fa{acts}, na;
  for (int d = 0; d < max_depth && !frontier.empty(); ++d) {
    next.clear(); na.clear();
    for (size_t i = 0; i < frontier.size(); ++i) {
      for (auto& a : fa[i]) {
        if (st.states >= max_states || st.viol.size() >= 6) { st.exhaustive = false; return; }
        auto h = frontier[i]; h.push_back(a);
        st.transitions++; st.actions_seen[a.op]++;
        if (!run(h, &acts, &fp)) continue;
        if (!seen.insert(fp).second) continue;
        st.states++;
        if (d >= 2 && st.samples.size() < 3) st.samples.push_back(show(h));
        if (d + 1 < max_depth) { next.push_back(h); na.push_back(acts); }
      }
    }
    st.depth_done = d + 1;
    frontier.swap(next); fa.swap(na);
  }
}

// Enumeration of independent cases: f(case description) runs one.
struct Cases {
  Stats& st;
  template<class F> bool one(const std::string& group, const std::string& what, F f) {
    if (st.viol.size() >= 6) { st.exhaustive = false; return false; }
    note(what); arm();
    st.transitions++; st.states++; st.actions_seen[group]++;
    if (st.samples.size() < 3 && st.transitions % 977 == 1) st.samples.push_back(what);
    try { f(); return true; }
    catch (const Violation& v) { st.bad(v, what); }
    catch (const std::exception& e) { st.bad({"exception:" + group, cat("unexpected exception: ", e.what())}, what); }
    return false;
  }
};

// Runs f with abort() turned into an exception; true if it ended normally, false if it was refused.
// (abort() is noexcept, so it cannot throw: it jumps.  What the refused call held - locks, memory - stays held.)
template<class F> bool accepted(F f) {
  jmp_buf here; jmp_buf* volatile old = refuse_to;
  if (_setjmp(here)) { refuse_to = old; return false; }
  refuse_to = &here;
  try { f(); refuse_to = old; return true; }
  catch (const Violation&) { refuse_to = old; throw; }
  catch (const std::exception&) { refuse_to = old; return false; }
}

}  // namespace vf

#ifdef VF_MAIN
extern "C" void __real_abort();
extern "C" void __wrap_abort() { if (vf::refuse_to) longjmp(*vf::refuse_to, 1); if (vf::on_abort) vf::on_abort(); __real_abort(); }
void vf_job(const std::string& name, const std::map<std::string, long>& opt, vf::Stats& st);
int main(int argc, char** argv) {
  vf::init();
  std::map<std::string, long> opt;
  for (int i = 2; i < argc; ++i) { std::string a = argv[i]; auto e = a.find('='); opt[a.substr(0, e)] = atol(a.c_str() + e + 1); }
  vf::Stats st;
  vf_job(argv[1], opt, st);
  if (st.samples.empty()) st.samples.push_back(vf::journal ? vf::journal : "");
  vf::write_out(st);
  fflush(nullptr);
  _exit(0);
}
#endif
