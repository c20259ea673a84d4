// See vsched.hpp. This file is compiled without instrumentation.
#include "vsched.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdint>
#include <ctime>

#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <unordered_map>

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }

namespace {
constexpr int MAXT = 10;
struct VC { int c[MAXT] = {}; void join(const VC& o) { for (int i = 0; i < MAXT; ++i) c[i] = std::max(c[i], o.c[i]); } };
enum St { Run, BMutex, BCond, BJoin, BSpin, BSleep, BSem, BGuard, Done };
struct T {
  int id = 0; St st = Run; const void* on = nullptr; bool timed = false, timeout = false;
  int fut = 0; pthread_t self{}; VC vc, pend, frel; void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr; bool detached = false;
  long seen = 0, own = 0;               // global version at the last yield, own contributions since
  int idle = 0;                         // turns given since then although nothing had changed
  const void* last_load = nullptr; int loads = 0; long load_ver = 0;
  char *slo = nullptr, *shi = nullptr;
  void* stk[1024]; int depth = 0;
  std::vector<void*> top(int k) { std::vector<void*> r; for (int i = depth - 1; i >= 0 && k > 0; --i, --k) if (i < 1024) r.push_back(stk[i]); return r; }
};
struct Mx { int owner = -1, n = 0; VC vc; };
struct Acc { uint8_t tid = 0, mask = 0; bool w = false, at = false; int clk = 0; void* pc = nullptr; };
struct Cell { Acc a[6]; uint8_t n = 0; uint8_t next = 0; };
}  // namespace

namespace {
bool g_active = false;
T* g_t[MAXT]; int g_nt = 0; int g_cur = 0;
thread_local T* me = nullptr;
thread_local bool inside = false;          // in the runtime: no hooks
struct In { bool o; In() : o(inside) { inside = true; } ~In() { inside = o; } };

vs::Opt g_o; vf::Stats* g_st; std::string g_what;
struct Choice { int c, n; };
std::vector<Choice> g_path; size_t g_pos = 0; int g_used = 0, g_swapped = 0; long g_steps = 0, g_version = 0;
std::unordered_map<const void*, Mx>* g_mx; std::unordered_map<const void*, VC>* g_at;
std::unordered_map<const void*, std::pair<int, VC>>* g_sem;
std::unordered_map<uintptr_t, Cell>* g_sh;
std::unordered_map<uintptr_t, size_t>* g_freed_blocks; std::vector<void*>* g_quar;   // quarantined blocks
std::unordered_map<uintptr_t, void*>* g_freed;     // 8-byte granules of freed blocks -> pc of the free

bool on() { return g_active && me && !inside; }

std::string where(const std::vector<void*>& pcs) {
  char exe[256]; ssize_t k = readlink("/proc/self/exe", exe, 255); exe[k < 0 ? 0 : k] = 0;
  std::string cmd = std::string("addr2line -f -C -s -e ") + exe;
  for (void* p : pcs) { char b[32]; snprintf(b, 32, " %p", (char*)p - 1); cmd += b; }
  bool a = g_active; g_active = false;
  FILE* f = popen(cmd.c_str(), "r"); std::string out; char b[512];
  if (f) { bool fn = true; while (fgets(b, 512, f)) { b[strcspn(b, "\n")] = 0; if (fn) { std::string s = b; auto e = s.find('('); out += s.substr(0, e) + " "; } else { out += std::string("(") + b + ") "; } fn = !fn; } pclose(f); }
  g_active = a;
  return out;
}
std::string short_fn(void* pc) { auto s = where({pc}); auto e = s.find(' '); return s.substr(0, e); }
std::string sched_str() { std::string s; for (size_t i = 0; i < g_pos && i < g_path.size(); ++i) s += (i ? "," : "") + std::to_string(g_path[i].c); return s; }

[[noreturn]] void die(const std::string& sig, const std::string& msg) {
  In in; g_active = false;
  std::string m = msg + " | threads:";
  for (int i = 0; i < g_nt; ++i) {
    static const char* N[] = {"runs", "waits-for-mutex", "waits-for-condition", "joins", "spins", "sleeps", "waits-for-semaphore", "waits-for-static", "done"};
    m += " T" + std::to_string(i) + "=" + N[g_t[i]->st];
    if (g_t[i]->st != Done && g_t[i]->depth) m += "[" + where(g_t[i]->top(4)) + "]";
  }
  g_st->bad({sig, m}, g_what + " schedule=" + sched_str());
  g_st->exhaustive = false;
  vf::write_out(*g_st); fflush(nullptr);
  _exit(0);
}

void fwait(T* t) { while (__atomic_load_n(&t->fut, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, &t->fut, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(&t->fut, 0, __ATOMIC_RELAXED); }
void fwake(T* t) { __atomic_store_n(&t->fut, 1, __ATOMIC_RELEASE); syscall(SYS_futex, &t->fut, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

int pick(int n) {
  if (n <= 1) return 0;
  int c;
  if (g_pos < g_path.size()) {
    if (g_path[g_pos].n != n) { fprintf(stderr, "VF-NONDETERMINISM: %d options, %d before, at choice %zu of %s\n", n, g_path[g_pos].n, g_pos, g_what.c_str()); _exit(96); }
    c = g_path[g_pos].c;
  } else { c = 0; g_path.push_back({0, n}); }
  g_pos++;
  return c;
}

bool enabled(T* t) {
  switch (t->st) {
    case Run: case BSleep: return true;
    case BMutex: return (*g_mx)[t->on].owner < 0;
    case BJoin: return ((T*)t->on)->st == Done;
    case BSpin: return g_version - t->own != t->seen;
    case BSem: return (*g_sem)[t->on].first > 0;
    case BGuard: return ((volatile char*)t->on)[1] == 0;
    default: return false;
  }
}
void go(T* n) {          // hand the baton over
  if (n == me) return;
  g_cur = n->id; T* m = me;
  fwake(n);
  if (m->st != Done) fwait(m);
}
// free: the current thread gives up the processor by itself (blocked, yielded or finished)
void resched(bool giving_up) {
  if (++g_steps > g_o.max_steps) die("no-end", "an execution does not come to an end under a fair schedule");
  vf::arm_maybe();
  std::vector<T*> opt;
  bool me_on = me->st != Done && enabled(me);
  if (!giving_up && me_on) {
    opt.push_back(me);
    if (g_used < g_o.preemptions) for (int i = 1; i < g_nt; ++i) { T* t = g_t[(me->id + i) % g_nt]; if (t != me && enabled(t)) opt.push_back(t); }
    T* n = opt[pick(opt.size())];
    if (n != me) g_used++;
    go(n);
  } else {
    for (int i = 1; i < g_nt; ++i) { T* t = g_t[(me->id + i) % g_nt]; if (t != me && enabled(t)) opt.push_back(t); }
    if (me_on && opt.empty()) opt.push_back(me);
    if (opt.empty()) for (int i = 0; i < g_nt; ++i) if (g_t[i]->st == BCond && g_t[i]->timed) { g_t[i]->timeout = true; g_t[i]->st = Run; opt.push_back(g_t[i]); break; }
    if (opt.empty()) {                   // a thread that yields a bounded number of times goes on
      T* t = nullptr; for (int i = 0; i < g_nt; ++i) if (g_t[i]->st == BSpin && (!t || g_t[i]->idle < t->idle)) t = g_t[i];
      if (t && t->idle < 300) { t->idle++; opt.push_back(t); }
    }
    if (opt.empty()) {
      bool all = true; for (int i = 0; i < g_nt; ++i) all &= g_t[i]->st == Done;
      if (all) return;
      bool spin = false; for (int i = 0; i < g_nt; ++i) spin |= g_t[i]->st == BSpin;
      die("deadlock", spin ? "every thread is blocked or spins on something nobody will change" : "every thread is blocked");
    }
    int c = pick(g_swapped < g_o.detours ? opt.size() : 1);
    if (c) g_swapped++;
    go(opt[c]);
  }
  if (me->st != Done && me->st != BCond) me->st = Run;
}
void spoint() { resched(false); }
void changed() { g_version++; me->own++; }
void block(St s, const void* on) { me->st = s; me->on = on; resched(true); }
void yield() {
  // without a change by others since the last yield, another turn would see the same
  me->st = BSpin;
  bool news = g_version - me->own != me->seen;
  me->seen = g_version - me->own;
  if (news) { me->st = Run; me->idle = 0; }
  resched(true);
}

void check_uaf(uintptr_t a, size_t n, void* pc, const char* what) {
  for (uintptr_t g = a & ~7ul; g < a + n; g += 8) {
    auto it = g_freed->find(g);
    if (it != g_freed->end()) die("use-after-free@" + short_fn(pc), std::string(what) + " of freed memory in " + where({pc}) + "freed in " + where({it->second}));
  }
}
void access(uintptr_t a, size_t n, bool w, bool at, void* pc) {
  if ((char*)a >= me->slo && (char*)a < me->shi && g_nt == 1) return;
  In in;
  if (!g_freed->empty()) check_uaf(a, n, pc, w ? "write" : "read");
  if (w && !at && !((char*)a >= me->slo && (char*)a < me->shi)) changed();
  while (n) {
    uintptr_t g = a & ~7ul; size_t k = std::min<size_t>(n, 8 - (a - g));
    uint8_t mask = uint8_t(((1u << k) - 1) << (a - g));
    Cell& c = (*g_sh)[g];
    bool have = false;
    for (int i = 0; i < c.n; ++i) {
      Acc& x = c.a[i];
      if (x.tid == me->id) { if (x.mask == mask && x.w == w && x.at == at) { x.clk = me->vc.c[me->id]; x.pc = pc; have = true; } continue; }
      if (!(x.mask & mask) || !(x.w || w) || (x.at && at)) continue;
      if (x.clk > me->vc.c[x.tid]) {
        auto f = short_fn(x.pc), h = short_fn(pc); if (h < f) std::swap(f, h);
        die("data-race@" + f + "/" + h, std::string("data race: ") + (w ? "write" : "read") + " in " + where({pc}) + "(T" + std::to_string(me->id) + ") is not ordered after the " + (x.w ? "write" : "read") + " in " + where({x.pc}) + "(T" + std::to_string(x.tid) + ")");
      }
    }
    if (!have) { int i = c.n < 6 ? c.n++ : (c.next = (c.next + 1) % 6); c.a[i] = {(uint8_t)me->id, mask, w, at, me->vc.c[me->id], pc}; }
    a += k; n -= k;
  }
}
void forget(char* p, size_t n) { for (uintptr_t g = (uintptr_t)p & ~7ul; g < (uintptr_t)p + n; g += 8) { g_sh->erase(g); } }

bool acq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void tick() { me->vc.c[me->id]++; }
void a_load(const void* p, int mo) { VC& v = (*g_at)[p]; if (acq(mo)) me->vc.join(v); else me->pend.join(v); }
void a_store(const void* p, int mo, bool rmw) {
  VC& v = (*g_at)[p];
  if (rel(mo)) { if (rmw) v.join(me->vc); else v = me->vc; tick(); }
  else if (rmw) v.join(me->frel); else v = me->frel;
}
}  // namespace

namespace vf { void arm_maybe() { static int k = 0; if (++k % 4096 == 0) arm(); } }

// ---------------------------------------------------------------- real functions
template<class F> static F real(F, const char* n) { static_assert(sizeof(F) > 0); return (F)dlsym(RTLD_NEXT, n); }
#define REAL(f) ([]() { static auto p = real(&f, #f); return p; }())

static void* tmain(void* a) {
  T* t = (T*)a; me = t;
  { pthread_attr_t at; void* s; size_t n; In in; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &s, &n); pthread_attr_destroy(&at); t->slo = (char*)s; t->shi = t->slo + n; }
  fwait(t);
  void* r = t->fn(t->arg);
  { In in; t->ret = r; t->st = Done; changed(); resched(true); }
  me = nullptr;
  return r;
}

#define VIS extern "C" __attribute__((visibility("default")))
VIS int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!on()) return REAL(pthread_create)(th, at, fn, arg);
  In in;
  if (g_nt == MAXT) { fprintf(stderr, "VF: too many threads\n"); _exit(95); }
  T* t = new T; t->id = g_nt; t->fn = fn; t->arg = arg; t->vc = me->vc; t->vc.c[t->id]++; tick();
  t->seen = -1;
  g_t[g_nt++] = t;
  int r = REAL(pthread_create)(&t->self, at, tmain, t);
  if (r) { g_nt--; return r; }
  *th = t->self;
  changed(); spoint();
  return 0;
}
VIS int pthread_join(pthread_t th, void** ret) {
  if (!on()) return REAL(pthread_join)(th, ret);
  In in; T* t = nullptr; for (int i = 0; i < g_nt; ++i) if (pthread_equal(g_t[i]->self, th) && !g_t[i]->detached) t = g_t[i];
  spoint();
  while (t->st != Done) block(BJoin, t);
  me->vc.join(t->vc); t->detached = true;
  int r = REAL(pthread_join)(th, ret);
  forget(t->slo, 0);
  return r;
}
VIS int pthread_detach(pthread_t th) {
  if (!on()) return REAL(pthread_detach)(th);
  In in; for (int i = 0; i < g_nt; ++i) if (pthread_equal(g_t[i]->self, th)) g_t[i]->detached = true;
  return REAL(pthread_detach)(th);
}
VIS int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on()) return REAL(pthread_mutex_lock)(m);
  In in; spoint();
  if (!g_freed->empty()) check_uaf((uintptr_t)m, sizeof *m, __builtin_return_address(0), "lock");
  for (;;) {
    Mx& x = (*g_mx)[m];
    if (x.owner < 0 || (x.owner == me->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)) { x.owner = me->id; x.n++; me->vc.join(x.vc); return 0; }
    if (x.owner == me->id) die("deadlock", "a thread locks a mutex it already holds");
    block(BMutex, m);
  }
}
VIS int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) return REAL(pthread_mutex_trylock)(m);
  In in; spoint(); Mx& x = (*g_mx)[m];
  if (x.owner < 0 || (x.owner == me->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)) { x.owner = me->id; x.n++; me->vc.join(x.vc); return 0; }
  return EBUSY;
}
static void unlock(const void* m) { Mx& x = (*g_mx)[m]; if (x.owner != me->id) die("bad-unlock", "a mutex is unlocked by a thread that does not hold it"); if (--x.n == 0) { x.owner = -1; x.vc = me->vc; tick(); } }
VIS int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on()) return REAL(pthread_mutex_unlock)(m);
  In in;
  if (!g_freed->empty()) check_uaf((uintptr_t)m, sizeof *m, __builtin_return_address(0), "unlock");
  unlock(m); return 0;
}
VIS int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!on()) return REAL(pthread_mutex_destroy)(m);
  In in; if ((*g_mx)[m].owner >= 0) die("destroyed-locked", "a locked mutex is destroyed"); g_mx->erase(m); return 0;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  In in; spoint();
  if (!g_freed->empty()) check_uaf((uintptr_t)c, sizeof *c, __builtin_return_address(0), "wait");
  int n = (*g_mx)[m].n; (*g_mx)[m].n = 1; unlock(m);
  me->st = BCond; me->on = c; me->timed = timed; me->timeout = false;
  resched(true);
  me->st = Run;
  while ((*g_mx)[m].owner >= 0) block(BMutex, m);
  Mx& x = (*g_mx)[m]; x.owner = me->id; x.n = n; me->vc.join(x.vc);
  return me->timeout ? ETIMEDOUT : 0;
}
VIS int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!on()) return REAL(pthread_cond_wait)(c, m); return cwait(c, m, false); }
VIS int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (!on()) return REAL(pthread_cond_timedwait)(c, m, t); return cwait(c, m, true); }
VIS int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (!on()) return REAL(pthread_cond_clockwait)(c, m, k, t); return cwait(c, m, true); }
VIS int pthread_cond_signal(pthread_cond_t* c) {
  if (!on()) return REAL(pthread_cond_signal)(c);
  In in; spoint();
  if (!g_freed->empty()) check_uaf((uintptr_t)c, sizeof *c, __builtin_return_address(0), "notify");
  std::vector<T*> w; for (int i = 0; i < g_nt; ++i) if (g_t[i]->st == BCond && g_t[i]->on == c) w.push_back(g_t[i]);
  if (w.size()) w[pick(w.size())]->st = Run;
  changed(); return 0;
}
VIS int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!on()) return REAL(pthread_cond_broadcast)(c);
  In in; spoint();
  if (!g_freed->empty()) check_uaf((uintptr_t)c, sizeof *c, __builtin_return_address(0), "notify");
  for (int i = 0; i < g_nt; ++i) if (g_t[i]->st == BCond && g_t[i]->on == c) g_t[i]->st = Run;
  changed(); return 0;
}
VIS int pthread_cond_destroy(pthread_cond_t* c) {
  if (!on()) return REAL(pthread_cond_destroy)(c);
  In in; for (int i = 0; i < g_nt; ++i) if (g_t[i]->st == BCond && g_t[i]->on == c) die("destroyed-waited", "a condition variable is destroyed while a thread waits on it");
  return 0;
}
VIS int sched_yield() { if (!on()) return REAL(sched_yield)(); In in; yield(); return 0; }
static void nap() { In in; me->st = BSleep; resched(true); }
VIS int nanosleep(const timespec* a, timespec* b) { if (!on()) return REAL(nanosleep)(a, b); nap(); return 0; }
VIS int clock_nanosleep(clockid_t k, int f, const timespec* a, timespec* b) { if (!on()) return REAL(clock_nanosleep)(k, f, a, b); nap(); return 0; }
VIS int usleep(useconds_t u) { if (!on()) return REAL(usleep)(u); nap(); return 0; }
VIS int sem_init(sem_t* s, int sh, unsigned v) { if (!on()) return REAL(sem_init)(s, sh, v); In in; (*g_sem)[s] = {(int)v, VC{}}; return 0; }
VIS int sem_post(sem_t* s) { if (!on()) return REAL(sem_post)(s); In in; spoint(); auto& x = (*g_sem)[s]; x.first++; x.second.join(me->vc); tick(); changed(); return 0; }
VIS int sem_wait(sem_t* s) { if (!on()) return REAL(sem_wait)(s); In in; spoint(); while ((*g_sem)[s].first <= 0) block(BSem, s); (*g_sem)[s].first--; me->vc.join((*g_sem)[s].second); return 0; }
VIS int sem_trywait(sem_t* s) { if (!on()) return REAL(sem_trywait)(s); In in; spoint(); auto& x = (*g_sem)[s]; if (x.first <= 0) { errno = EAGAIN; return -1; } x.first--; me->vc.join(x.second); return 0; }

// guards of function-level statics: byte 0 done, byte 1 being initialised
VIS int __cxa_guard_acquire(long long* g) {
  char* b = (char*)g;
  if (!on()) { if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0; b[1] = 1; return 1; }
  In in; spoint();
  for (;;) { if (b[0]) { me->vc.join((*g_at)[g]); return 0; } if (!b[1]) { b[1] = 1; return 1; } block(BGuard, g); }
}
VIS void __cxa_guard_release(long long* g) { char* b = (char*)g; b[1] = 0; __atomic_store_n(b, 1, __ATOMIC_RELEASE); if (on()) { In in; (*g_at)[g].join(me->vc); tick(); changed(); } }
VIS void __cxa_guard_abort(long long* g) { char* b = (char*)g; b[1] = 0; if (on()) { In in; changed(); } }

// ---------------------------------------------------------------- memory
VIS void* malloc(size_t n) { void* p = __libc_malloc(n); if (p && on()) { In in; forget((char*)p, malloc_usable_size(p)); } return p; }
VIS void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p && on()) { In in; forget((char*)p, malloc_usable_size(p)); } return p; }
static void quarantine(void* p, void* pc) {
  In in; size_t n = malloc_usable_size(p);
  if (g_freed->count((uintptr_t)p)) die("double-free", "memory is freed twice, in " + where({pc}));
  access((uintptr_t)p, n, true, false, pc);
  for (uintptr_t g = (uintptr_t)p; g < (uintptr_t)p + n; g += 8) { g_sh->erase(g); (*g_freed)[g] = pc; }
  g_quar->push_back(p);
}
VIS void free(void* p) { if (!p) return; if (on()) { quarantine(p, me->depth && me->depth < 1024 ? me->stk[me->depth - 1] : __builtin_return_address(0)); return; } __libc_free(p); }
VIS void* realloc(void* p, size_t n) {
  if (!on()) return __libc_realloc(p, n);
  if (!p) return malloc(n);
  void* q = malloc(n); size_t o = malloc_usable_size(p); memcpy(q, p, o < n ? o : n); free(p); return q;
}
VIS void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p && on()) { In in; forget((char*)p, malloc_usable_size(p)); } return p; }
VIS void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
VIS int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }

// ---------------------------------------------------------------- instrumentation
#define PC __builtin_return_address(0)
VIS void __tsan_init() {}
VIS void __tsan_func_entry(void* pc) { if (me && !inside) { if (me->depth < 1024) me->stk[me->depth] = pc; me->depth++; } }
VIS void __tsan_func_exit() { if (me && !inside && me->depth) me->depth--; }
#define RW(N) \
  VIS void __tsan_read##N(void* a) { if (on()) access((uintptr_t)a, N, false, false, PC); } \
  VIS void __tsan_write##N(void* a) { if (on()) access((uintptr_t)a, N, true, false, PC); } \
  VIS void __tsan_unaligned_read##N(void* a) { if (on()) access((uintptr_t)a, N, false, false, PC); } \
  VIS void __tsan_unaligned_write##N(void* a) { if (on()) access((uintptr_t)a, N, true, false, PC); } \
  VIS void __tsan_volatile_read##N(void* a) { if (on()) access((uintptr_t)a, N, false, false, PC); } \
  VIS void __tsan_volatile_write##N(void* a) { if (on()) access((uintptr_t)a, N, true, false, PC); } \
  VIS void __tsan_unaligned_volatile_read##N(void* a) { if (on()) access((uintptr_t)a, N, false, false, PC); } \
  VIS void __tsan_unaligned_volatile_write##N(void* a) { if (on()) access((uintptr_t)a, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
VIS void __tsan_read_range(void* a, size_t n) { if (on()) access((uintptr_t)a, n, false, false, PC); }
VIS void __tsan_write_range(void* a, size_t n) { if (on()) access((uintptr_t)a, n, true, false, PC); }
VIS void __tsan_vptr_update(void* a, void*) { if (on()) access((uintptr_t)a, 8, true, false, PC); }
VIS void __tsan_vptr_read(void* a) { if (on()) access((uintptr_t)a, 8, false, false, PC); }

static void pre(const void* p, size_t n, bool w, void* pc) { spoint(); access((uintptr_t)p, n, w, true, pc); }
template<class V> static void loaded(const V* p) {      // a loop that only reads must let others run
  if (me->last_load == p && me->load_ver == g_version - me->own) { if (++me->loads > 20) { me->loads = 0; yield(); } }
  else { me->last_load = p; me->loads = 0; me->load_ver = g_version - me->own; }
}
template<class V> static V at_load(const V* p, int mo, void* pc) { if (!on()) return *p; In in; pre(p, sizeof *p, false, pc); loaded(p); V v = *p; a_load(p, mo); return v; }
template<class V> static void at_store(V* p, V v, int mo, void* pc) { if (!on()) { *p = v; return; } In in; pre(p, sizeof *p, true, pc); if (*p != v) changed(); *p = v; a_store(p, mo, false); }
template<class V, class F> static V at_rmw(V* p, F f, int mo, void* pc) { if (!on()) { V o = *p; *p = f(o); return o; } In in; pre(p, sizeof *p, true, pc); V o = *p; V n = f(o); if (n != o) changed(); *p = n; a_load(p, mo); a_store(p, mo, true); return o; }
template<class V> static int at_cas(V* p, V* e, V d, int mo, int fmo, void* pc) {
  if (!on()) { if (*p == *e) { *p = d; return 1; } *e = *p; return 0; }
  In in; pre(p, sizeof *p, true, pc);
  if (*p == *e) { if (*p != d) changed(); *p = d; a_load(p, mo); a_store(p, mo, true); return 1; }
  loaded(p); *e = *p; a_load(p, fmo); return 0;
}
typedef __int128 i128;
#define ATOM(B, V) \
  VIS V __tsan_atomic##B##_load(const volatile V* p, int mo) { return at_load((const V*)p, mo, PC); } \
  VIS void __tsan_atomic##B##_store(volatile V* p, V v, int mo) { at_store((V*)p, v, mo, PC); } \
  VIS V __tsan_atomic##B##_exchange(volatile V* p, V v, int mo) { return at_rmw((V*)p, [=](V) { return v; }, mo, PC); } \
  VIS V __tsan_atomic##B##_fetch_add(volatile V* p, V v, int mo) { return at_rmw((V*)p, [=](V o) { return V(o + v); }, mo, PC); } \
  VIS V __tsan_atomic##B##_fetch_sub(volatile V* p, V v, int mo) { return at_rmw((V*)p, [=](V o) { return V(o - v); }, mo, PC); } \
  VIS V __tsan_atomic##B##_fetch_and(volatile V* p, V v, int mo) { return at_rmw((V*)p, [=](V o) { return V(o & v); }, mo, PC); } \
  VIS V __tsan_atomic##B##_fetch_or(volatile V* p, V v, int mo) { return at_rmw((V*)p, [=](V o) { return V(o | v); }, mo, PC); } \
  VIS V __tsan_atomic##B##_fetch_xor(volatile V* p, V v, int mo) { return at_rmw((V*)p, [=](V o) { return V(o ^ v); }, mo, PC); } \
  VIS V __tsan_atomic##B##_fetch_nand(volatile V* p, V v, int mo) { return at_rmw((V*)p, [=](V o) { return V(~(o & v)); }, mo, PC); } \
  VIS int __tsan_atomic##B##_compare_exchange_strong(volatile V* p, V* e, V d, int mo, int f) { return at_cas((V*)p, e, d, mo, f, PC); } \
  VIS int __tsan_atomic##B##_compare_exchange_weak(volatile V* p, V* e, V d, int mo, int f) { return at_cas((V*)p, e, d, mo, f, PC); } \
  VIS V __tsan_atomic##B##_compare_exchange_val(volatile V* p, V e, V d, int mo, int f) { at_cas((V*)p, &e, d, mo, f, PC); return e; }
ATOM(8, int8_t) ATOM(16, int16_t) ATOM(32, int32_t) ATOM(64, int64_t) ATOM(128, i128)
VIS void __tsan_atomic_thread_fence(int mo) { if (!on()) return; In in; if (acq(mo)) me->vc.join(me->pend); if (rel(mo)) { me->frel = me->vc; tick(); } }
VIS void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- explorer
namespace vs {
bool active() { return g_active; }
void point() { if (on()) { In in; spoint(); } }
int choose(int n) { if (!g_active) return 0; In in; return pick(n); }
void fail(const std::string& sig, const std::string& msg) { In in; die(sig, msg); }

void explore(const Opt& o, vf::Stats& st, const std::function<void()>& body, const std::string& what) {
  In outer;
  g_o = o; g_st = &st; g_what = what; g_path.clear();
  g_mx = new std::unordered_map<const void*, Mx>; g_at = new std::unordered_map<const void*, VC>; g_sem = new std::unordered_map<const void*, std::pair<int, VC>>;
  g_sh = new std::unordered_map<uintptr_t, Cell>; g_freed = new std::unordered_map<uintptr_t, void*>; g_quar = new std::vector<void*>;
  vf::on_abort = [] { vs::fail("abort", "the code under test gave up (abort)"); };
  struct sigaction sa{}; sa.sa_handler = [](int s) { if (g_active) { inside = false; vs::fail(s == SIGSEGV ? "segv" : "signal", "the code under test crashed"); } signal(s, SIG_DFL); raise(s); };
  sa.sa_flags = SA_NODEFER | SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr);
  long execs = -1;           // the first execution initialises statics and is not part of the enumeration
  auto cleanup = [] {
    for (int i = 0; i < g_nt; ++i) delete g_t[i];
    g_nt = 0;
    g_mx->clear(); g_at->clear(); g_sem->clear(); g_sh->clear(); g_freed->clear();
    for (void* p : *g_quar) __libc_free(p);
    g_quar->clear();
  };
  for (;;) {
    vf::note(what); vf::arm();
    T* t0 = new T; t0->self = pthread_self(); t0->vc.c[0] = 1; t0->seen = -1;
    { pthread_attr_t at; void* s; size_t n; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &s, &n); pthread_attr_destroy(&at); t0->slo = (char*)s; t0->shi = t0->slo + n; }
    g_nt = 0; g_t[g_nt++] = t0; me = t0; g_cur = 0; g_pos = 0; g_used = 0; g_swapped = 0; g_steps = 0; g_version = 0;
    g_active = true; inside = false;
    try { body(); } catch (const vf::Violation& v) { inside = true; die(v.sig, v.msg); } catch (const std::exception& e) { inside = true; die("exception", e.what()); }
    inside = true;
    // let detached threads end
    for (bool all = false; !all;) { all = true; for (int i = 1; i < g_nt; ++i) if (g_t[i]->st != Done) all = false; if (!all) { me->st = BSleep; resched(true); } }
    g_active = false; me = nullptr;
    if (++execs == 0) { cleanup(); g_path.clear(); continue; }
    st.states++; st.transitions += g_steps; st.actions_seen[what]++;
    if (execs == 7 || execs == 1000) st.samples.push_back(what + " schedule=" + sched_str());
    cleanup();
    while (!g_path.empty() && g_path.back().c + 1 >= g_path.back().n) g_path.pop_back();
    if (g_path.empty()) break;
    g_path.back().c++;
    if (execs >= o.max_execs) { st.exhaustive = false; break; }
  }
}
}  // namespace vs
