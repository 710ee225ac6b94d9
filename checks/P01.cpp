// P01: controlled scheduler + race detector + schedule explorer.
//
// The library is compiled with -fsanitize=thread, but linked against the
// runtime below instead of libtsan.  All locks, atomics, one-time
// initialisations and static-local guards become scheduling points; every access
// to a global, function-static, COMMON or explicitly shared object is checked
// for happens-before races with vector clocks.  One thread runs at a time; the
// explorer enumerates ALL schedules up to a preemption bound (CHESS style).
// Every execution is a forked process, so statics start fresh each time.
#include "P01.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <linux/futex.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <vector>

extern "C" char __data_start, _end, __executable_start;

namespace {

// ---------------------------------------------------------------- result area
enum { MAXP = 4000, MAXR = 6 };
struct Point { std::uint8_t n, chosen, cur_enabled; };
struct Result {
   int npoints, done, deadlock, diverged, overflow, livelock, nraces, nshared, nsync;
   Point pt[MAXP];
   std::uint64_t hash[8];
   struct { std::uintptr_t addr, pc1, pc2; int size, write1, write2; } race[MAXR];
   int banners, bytes; char text[256];
};
Result* R = nullptr;

// ---------------------------------------------------------------- threads
struct VC { std::uint32_t c[8]; VC() { std::memset(c, 0, sizeof c); } void join(const VC& o) { for (int i = 0; i < 8; i++) c[i] = std::max(c[i], o.c[i]); } };
enum State { READY, DONE };
struct Thr { int state = READY; VC vc; int go = 0; const void* wants_mutex = nullptr; const void* wants_guard = nullptr; int yielded = 0; unsigned spins = 0; char *stack_lo = nullptr, *stack_hi = nullptr; };
int N = 0; Thr T[8]; int cur = -1;
int main_go = 0;
thread_local int me = -1;
thread_local int in_rt = 0;
bool active = false;
const std::uint8_t* prefix = nullptr; int nprefix = 0;

void fwait(int* p) { while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, p, FUTEX_WAIT, 0, nullptr, nullptr, 0); __atomic_store_n(p, 0, __ATOMIC_RELEASE); }
void fwake(int* p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE, 1, nullptr, nullptr, 0); }

// ---------------------------------------------------------------- sync objects
struct Mutex { int owner = -1; int depth = 0; int readers = 0; VC vc, rvc; };
std::map<const void*, Mutex>* mutexes;
std::map<const void*, VC>* atomics;       // release clocks of atomics, guards, once flags
std::map<const void*, int>* guards;       // 1: initialisation in progress

bool enabled(int t)
{
   if (T[t].state == DONE) return false;
   if (T[t].wants_mutex) { auto& m = (*mutexes)[T[t].wants_mutex]; const auto w = T[t].yielded & 2; if (m.owner >= 0 && m.owner != t) return false; if (!w && m.readers > 0) return false; }
   if (T[t].wants_guard) { auto it = guards->find(T[t].wants_guard); if (it != guards->end() && it->second) return false; }
   return true;
}

[[noreturn]] void finish() { R->done = 1; fwake(&main_go); for (;;) pause(); }

/// a scheduling point of the running thread (or of main, before the first thread runs)
void choose(bool voluntary)
{
   int en[8], n = 0; const bool cen = cur >= 0 && enabled(cur);
   if (cen && !voluntary) en[n++] = cur;
   for (int t = 0; t < N; t++) if (t != cur && enabled(t)) en[n++] = t;
   if (cen && voluntary) en[n++] = cur;
   if (n == 0) {
      bool all = true; for (int t = 0; t < N; t++) all &= T[t].state == DONE;
      if (!all) R->deadlock = 1;
      finish();
   }
   int k = 0;
   if (n > 1) {
      if (R->npoints >= MAXP) { R->overflow = 1; }
      else {
         const int i = R->npoints++;
         if (i < nprefix) { k = prefix[i]; if (k >= n) { R->diverged = 1; k = 0; } }
         R->pt[i] = {std::uint8_t(n), std::uint8_t(k), std::uint8_t(cen && !voluntary)};
      }
   }
   const int next = en[k], self = me;
   if (next == cur && self == cur) return;
   cur = next; fwake(&T[next].go);
   if (self >= 0 && T[self].state != DONE) fwait(&T[self].go);
}

struct Guard { Guard() { in_rt++; } ~Guard() { in_rt--; } };
bool controlled() { return active && me >= 0 && !in_rt; }

void point(bool voluntary = false) { R->nsync++; choose(voluntary); }

// ---------------------------------------------------------------- race detection
struct Cell { int wt = -1; std::uint32_t wc = 0; std::uintptr_t wpc = 0; std::uint32_t rc[8] = {}; std::uintptr_t rpc[8] = {}; };
std::unordered_map<std::uintptr_t, Cell>* shadow;
struct Range { const char *lo, *hi; }; Range shared[16]; int nshared = 0; Range exempt[8]; int nexempt = 0;

inline bool is_shared(const char* p)
{
   bool in = p >= &__data_start && p < &_end;
   if (!in) for (int i = 0; i < nshared; i++) in |= p >= shared[i].lo && p < shared[i].hi;
   if (in) for (int i = 0; i < nexempt; i++) if (p >= exempt[i].lo && p < exempt[i].hi) return false;
   return in;
}
void race(std::uintptr_t a, int size, std::uintptr_t p1, int w1, std::uintptr_t p2, int w2)
{ if (R->nraces < MAXR) R->race[R->nraces] = {a, p1, p2, size, w1, w2}; R->nraces++; }

void access(const void* p_, std::size_t n, bool write, void* pc_)
{
   const char* p = static_cast<const char*>(p_);
   if (me < 0 || !active || in_rt || !is_shared(p)) return;
   Guard g; R->nshared++;
   const std::uintptr_t pc = reinterpret_cast<std::uintptr_t>(pc_);
   bool reported = false;
   for (std::size_t i = 0; i < n; i++) {
      Cell& c = (*shadow)[reinterpret_cast<std::uintptr_t>(p + i)]; const VC& v = T[me].vc;
      if (!reported && c.wt >= 0 && c.wt != me && c.wc > v.c[c.wt]) { race(reinterpret_cast<std::uintptr_t>(p), n, c.wpc, 1, pc, write); reported = true; }
      if (write) {
         for (int t = 0; t < N && !reported; t++) if (t != me && c.rc[t] > v.c[t]) { race(reinterpret_cast<std::uintptr_t>(p), n, c.rpc[t], 0, pc, 1); reported = true; }
         c.wt = me; c.wc = v.c[me]; c.wpc = pc;
      } else { c.rc[me] = v.c[me]; c.rpc[me] = pc; }
   }
}

// ---------------------------------------------------------------- locks
template <class F> F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

void acquire_mutex(const void* m, bool write)
{
   T[me].wants_mutex = m; if (!write) T[me].yielded |= 2;
   { Guard g; point(); }
   T[me].wants_mutex = nullptr; T[me].yielded &= ~2;
   Guard g; auto& x = (*mutexes)[m];
   if (write) { x.owner = me; x.depth++; T[me].vc.join(x.vc); T[me].vc.join(x.rvc); } else { x.readers++; T[me].vc.join(x.vc); }
}
void release_mutex(const void* m)
{
   { Guard g; auto& x = (*mutexes)[m];
   if (x.owner == me) { if (--x.depth == 0) { x.owner = -1; x.vc = T[me].vc; } }
   else if (x.readers > 0) { x.readers--; x.rvc.join(T[me].vc); }
   T[me].vc.c[me]++;
   point(); }
}
bool self_deadlock(const void* m, bool recursive)
{ Guard g; auto& x = (*mutexes)[m]; return x.owner == me && !recursive; }

} // namespace

extern "C" {

void vsched_share(const void* p, std::size_t n) { shared[nshared++] = {static_cast<const char*>(p), static_cast<const char*>(p) + n}; }

int pthread_mutex_lock(pthread_mutex_t* m)
{
   static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
   if (!controlled()) return f(m);
   if (self_deadlock(m, m->__data.__kind & 1)) { R->deadlock = 1; finish(); }
   acquire_mutex(m, true); return 0;      // the model lock is the lock: one thread runs at a time
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
   static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
   if (!controlled()) return f(m);
   Guard g; point(); auto& x = (*mutexes)[m];
   if (x.owner >= 0 && !(x.owner == me && (m->__data.__kind & 1))) return EBUSY;
   x.owner = me; x.depth++; T[me].vc.join(x.vc); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
   static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
   if (!controlled()) return f(m);
   { Guard g; auto it = mutexes->find(m); if (it == mutexes->end() || it->second.owner != me) return f(m); }
   release_mutex(m); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); if (!controlled()) return f(m); acquire_mutex(m, false); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); if (!controlled()) return f(m); if (self_deadlock(m, false)) { R->deadlock = 1; finish(); } acquire_mutex(m, true); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); if (!controlled()) return f(m); release_mutex(m); return 0; }
int pthread_spin_lock(pthread_spinlock_t* m) { static auto f = real<int (*)(pthread_spinlock_t*)>("pthread_spin_lock"); if (!controlled()) return f(m); acquire_mutex(const_cast<const int*>(m), true); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* m) { static auto f = real<int (*)(pthread_spinlock_t*)>("pthread_spin_unlock"); if (!controlled()) return f(m); release_mutex(const_cast<const int*>(m)); return 0; }
int sched_yield() { if (controlled()) { Guard g; point(true); } return 0; }

// one-time initialisation
int __cxa_guard_acquire(long long int* gd)
{
   auto* b = reinterpret_cast<std::uint8_t*>(gd);
   if (!controlled()) { if (*b) return 0; return 1; }
   if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { Guard g; T[me].vc.join((*atomics)[gd]); return 0; }   // done for good: commutes with everything
   T[me].wants_guard = gd; { Guard g; point(); } T[me].wants_guard = nullptr;
   Guard g; T[me].vc.join((*atomics)[gd]);
   if (*b) return 0;
   (*guards)[gd] = 1; return 1;
}
void __cxa_guard_release(long long int* gd)
{
   *reinterpret_cast<std::uint8_t*>(gd) = 1;
   if (!controlled()) return;
   Guard g; (*guards)[gd] = 0; (*atomics)[gd].join(T[me].vc); T[me].vc.c[me]++; point();
}
void __cxa_guard_abort(long long int* gd) { if (!controlled()) return; Guard g; (*guards)[gd] = 0; point(); }
int pthread_once(pthread_once_t* o, void (*fn)())
{
   static auto f = real<int (*)(pthread_once_t*, void (*)())>("pthread_once");
   if (!controlled()) { return f(o, fn); }
   if (__atomic_load_n(o, __ATOMIC_ACQUIRE) == 2) { Guard g; T[me].vc.join((*atomics)[o]); return 0; }
   T[me].wants_guard = o; { Guard g; point(); } T[me].wants_guard = nullptr;
   { Guard g; T[me].vc.join((*atomics)[o]); if (*o == 2) return 0; (*guards)[o] = 1; }
   try { fn(); } catch (...) { Guard g; (*guards)[o] = 0; point(); throw; }
   Guard g; *o = 2; (*guards)[o] = 0; (*atomics)[o].join(T[me].vc); T[me].vc.c[me]++; point();
   return 0;
}

// instrumentation callbacks ------------------------------------------------------
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
#define RW(n) \
   void __tsan_read##n(void* p) { access(p, n, false, PC); } \
   void __tsan_write##n(void* p) { access(p, n, true, PC); } \
   void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
   void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
   void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
   void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
   void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } \
   void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); } \
   void __tsan_read##n##_pc(void* p, void* pc) { access(p, n, false, pc); } \
   void __tsan_write##n##_pc(void* p, void* pc) { access(p, n, true, pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, std::size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, std::size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }

// block operations of instrumented code (linked with --wrap)
void* __real_memcpy(void*, const void*, std::size_t); void* __real_memmove(void*, const void*, std::size_t); void* __real_memset(void*, int, std::size_t);
void* __wrap_memcpy(void* d, const void* s, std::size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, std::size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, std::size_t n) { access(d, n, true, PC); return __real_memset(d, c, n); }

} // extern "C"

// atomics: scheduling point, then the operation, then happens-before edges according to the order
namespace {
bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
struct AtomicOp {
   const void* a; int mo; bool on; bool load_only;
   AtomicOp(const volatile void* a_, int mo_, bool lo) : a(const_cast<const void*>(a_)), mo(mo_), on(false), load_only(lo)
   {
      if (!controlled()) return;
      char loc; const char* p = static_cast<const char*>(a);
      if (p > &loc - (8 << 20) && p < &loc + (8 << 20) && !is_shared(p)) return;   // own stack
      on = true; Guard g;
      // a thread that only keeps polling gives way without paying for a preemption
      const bool spin = ++T[me].spins > 200; if (spin) T[me].spins = 0;
      if (R->nsync > 2000000) { R->livelock = 1; finish(); }
      point(spin);
   }
   ~AtomicOp()
   {
      if (!on) return;
      Guard g;
      if (acq(mo)) T[me].vc.join((*atomics)[a]);
      if (!load_only && rel(mo)) { (*atomics)[a].join(T[me].vc); T[me].vc.c[me]++; }
   }
};
}
extern "C" {
#define AT(bitsn, ty) \
   ty __tsan_atomic##bitsn##_load(const volatile ty* a, int mo) { AtomicOp o(a, mo, true); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
   void __tsan_atomic##bitsn##_store(volatile ty* a, ty v, int mo) { AtomicOp o(a, mo, false); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); if (me >= 0) T[me].spins = 0; } \
   ty __tsan_atomic##bitsn##_exchange(volatile ty* a, ty v, int mo) { AtomicOp o(a, mo, false); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
   ty __tsan_atomic##bitsn##_fetch_add(volatile ty* a, ty v, int mo) { AtomicOp o(a, mo, false); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
   ty __tsan_atomic##bitsn##_fetch_sub(volatile ty* a, ty v, int mo) { AtomicOp o(a, mo, false); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
   ty __tsan_atomic##bitsn##_fetch_and(volatile ty* a, ty v, int mo) { AtomicOp o(a, mo, false); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
   ty __tsan_atomic##bitsn##_fetch_or(volatile ty* a, ty v, int mo) { AtomicOp o(a, mo, false); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
   ty __tsan_atomic##bitsn##_fetch_xor(volatile ty* a, ty v, int mo) { AtomicOp o(a, mo, false); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
   ty __tsan_atomic##bitsn##_fetch_nand(volatile ty* a, ty v, int mo) { AtomicOp o(a, mo, false); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
   int __tsan_atomic##bitsn##_compare_exchange_strong(volatile ty* a, ty* c, ty v, int mo, int) { AtomicOp o(a, mo, false); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   int __tsan_atomic##bitsn##_compare_exchange_weak(volatile ty* a, ty* c, ty v, int mo, int) { AtomicOp o(a, mo, false); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   ty __tsan_atomic##bitsn##_compare_exchange_val(volatile ty* a, ty c, ty v, int mo, int) { AtomicOp o(a, mo, false); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}

// ================================================================== explorer
namespace {

void* thread_main(void* p)
{
   const int t = static_cast<int>(reinterpret_cast<std::intptr_t>(p));
   fwait(&T[t].go);
   me = t;
   R->hash[t] = scenarios[T[t].yielded >> 8].body(t);
   { Guard g; T[t].state = DONE; choose(false); }
   me = -1;
   return nullptr;
}

/// runs one execution in the calling (child) process
void execute(int s, const std::vector<std::uint8_t>& pre, int only)
{
   const auto& sc = scenarios[s];
   mutexes = new std::map<const void*, Mutex>; atomics = new std::map<const void*, VC>; guards = new std::map<const void*, int>; shadow = new std::unordered_map<std::uintptr_t, Cell>;
   for (std::ostream* o : {&std::cerr, &std::cout, &std::clog}) exempt[nexempt++] = {reinterpret_cast<char*>(o), reinterpret_cast<char*>(o) + sizeof(std::ostream)};
   exempt[nexempt++] = {reinterpret_cast<char*>(&std::cin), reinterpret_cast<char*>(&std::cin) + sizeof(std::istream)};
   // stderr of the library is captured
   const int fd = memfd_create("err", 0); dup2(fd, 2);
   sc.setup();
   N = sc.nthreads; prefix = pre.data(); nprefix = pre.size();
   pthread_t th[8];
   pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16 << 20);
   for (int t = 0; t < N; t++) { T[t].yielded = s << 8; for (int k = 0; k < N; k++) T[t].vc.c[k] = k == t ? 1 : 0; }
   if (only >= 0) for (int t = 0; t < N; t++) if (t != only) T[t].state = DONE;
   for (int t = 0; t < N; t++) if (T[t].state != DONE) pthread_create(&th[t], &at, thread_main, reinterpret_cast<void*>(std::intptr_t(t)));
   active = true;
   { Guard g; choose(false); }
   fwait(&main_go);
   active = false;
   std::cerr.flush();
   std::string txt; { char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) txt.append(b, n); }
   R->bytes = txt.size();
   for (std::size_t p = 0; (p = txt.find("Uses contributions", p)) != std::string::npos; p++) R->banners++;
   std::strncpy(R->text, txt.c_str(), sizeof(R->text) - 1);
   _exit(0);
}

struct Job { std::vector<std::uint8_t> pre; int cost; };
struct Running { pid_t pid; Job job; Result* r; std::chrono::steady_clock::time_point t0; };

std::string where(std::uintptr_t pc)
{
   char cmd[300]; const auto off = pc - reinterpret_cast<std::uintptr_t>(&__executable_start);
   char exe[200]; const ssize_t n = readlink("/proc/self/exe", exe, 199); exe[n > 0 ? n : 0] = 0;
   std::snprintf(cmd, sizeof cmd, "addr2line -C -s -f -p -e %s 0x%lx 2>/dev/null", exe, (unsigned long)(off - 1));
   std::string out; if (FILE* p = popen(cmd, "r")) { char b[512]; while (fgets(b, sizeof b, p)) out += b; pclose(p); }
   while (!out.empty() && out.back() == '\n') out.pop_back();
   return out.empty() ? "exe+" + std::to_string(off) : out;
}
std::string symbol(std::uintptr_t a)
{
   char exe[200]; const ssize_t n = readlink("/proc/self/exe", exe, 199); exe[n > 0 ? n : 0] = 0;
   const auto off = a - reinterpret_cast<std::uintptr_t>(&__executable_start);
   std::string best = "shared object"; std::string cmd = std::string("nm -CnS ") + exe + " 2>/dev/null";
   if (!(reinterpret_cast<char*>(a) >= &__data_start && reinterpret_cast<char*>(a) < &_end)) return best;
   if (FILE* p = popen(cmd.c_str(), "r")) { char b[1024]; while (fgets(b, sizeof b, p)) { unsigned long ad, sz; char ty; int pos; if (sscanf(b, "%lx %lx %c %n", &ad, &sz, &ty, &pos) >= 3 && off >= ad && off < ad + sz) { best = b + pos; } } pclose(p); }
   while (!best.empty() && best.back() == '\n') best.pop_back();
   return best;
}

std::string verif() { const char* d = getenv("VERIF_DIR"); return d ? d : "/verif"; }
bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }

std::uint64_t ref[32][8]; int ref_points[32];

/// problems of one execution, "" if none
std::string judge(int s, const Result& r, int status)
{
   std::string p; const auto& sc = scenarios[s];
   if (!WIFEXITED(status)) { if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) return "no progress: a thread blocked or looped forever; "; return std::string("crash: signal ") + strsignal(WTERMSIG(status)) + "; "; }
   if (WEXITSTATUS(status) != 0 || !r.done) return "execution ended abnormally; ";
   if (r.deadlock) return "deadlock: no thread can run; ";
   if (r.livelock) return "livelock: threads only poll; ";
   if (r.nraces) { const auto& q = r.race[0]; p += "data race on '" + symbol(q.addr) + "' (" + std::to_string(q.size) + " bytes): " + (q.write1 ? "write" : "read") + " at " + where(q.pc1) + " unordered with " + (q.write2 ? "write" : "read") + " at " + where(q.pc2) + "; "; }
   for (int t = 0; t < sc.nthreads; t++) if (r.hash[t] != ref[s][t]) p += "thread " + std::to_string(t) + " computed something else than when run alone; ";
   if (r.banners > sc.max_banner) p += "start-up banner printed " + std::to_string(r.banners) + " times; ";
   if (sc.max_banner == 0 && std::string(sc.name) != "validate" && r.bytes > 0) p += "unexpected output: " + std::string(r.text) + "; ";
   return p;
}

pid_t launch(int s, const Job& j, Result* r, int only = -1)
{
   std::memset(r, 0, offsetof(Result, pt)); std::memset(r->hash, 0, sizeof(Result) - offsetof(Result, hash));
   std::fflush(nullptr);
   const pid_t p = fork();
   if (p == 0) { R = r; alarm(60); execute(s, j.pre, only); }
   return p;
}

Result* area() { return static_cast<Result*>(mmap(nullptr, sizeof(Result), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0)); }

std::string show(const std::vector<std::uint8_t>& v) { std::string s; for (auto c : v) s += char('0' + c); return s.empty() ? "-" : s; }
std::string jesc(const std::string& s) { std::string r; for (char c : s) if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c >= 0x20 && (unsigned char)c < 0x7f) r += c; else r += ' '; return r; }

} // namespace

int main(int argc, char** argv)
{
   const auto T0 = std::chrono::steady_clock::now();
   const auto since = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); };
   setenv("ASAN_OPTIONS", "", 1);
   // reference: every body alone
   const auto reference = [] (int s) {
      for (int t = 0; t < scenarios[s].nthreads; t++) {
         Result* r = area(); int st; const pid_t p = launch(s, {{}, 0}, r, t); waitpid(p, &st, 0);
         if (!WIFEXITED(st) || WEXITSTATUS(st) || !r->done) { std::printf("reference run of %s thread %d failed (status %d)\n", scenarios[s].name, t, st); return false; }
         ref[s][t] = r->hash[t]; munmap(r, sizeof(Result));
      }
      return true;
   };
   if (argc > 2 && std::string(argv[1]) == "--replay") {   // scenario:choices
      const std::string a = argv[2]; const auto c = a.find(':'); int s = 0; while (s < n_scenarios && a.substr(0, c) != scenarios[s].name) s++;
      if (s == n_scenarios) return 2;
      Job j; j.cost = 0; for (char ch : a.substr(c + 1)) if (ch != '-') j.pre.push_back(ch - '0');
      if (!reference(s)) { std::printf("FAIL reference\n"); return 1; }
      Result* r = area(); int st; const pid_t p = launch(s, j, r); waitpid(p, &st, 0);
      const auto pr = judge(s, *r, st);
      std::printf("%s: %d scheduling points, %d shared accesses\n%s\n", a.c_str(), r->npoints, r->nshared, pr.empty() ? "no problem" : pr.c_str());
      for (int i = 0; i < r->nraces && i < MAXR; i++) std::printf("  race on %s: %s / %s\n", symbol(r->race[i].addr).c_str(), where(r->race[i].pc1).c_str(), where(r->race[i].pc2).c_str());
      return pr.empty() ? 0 : 1;
   }

   const int W = std::max(1u, std::thread::hardware_concurrency());
   const int maxbound = thorough() ? 4 : 2;
   const double budget = thorough() ? 780 : 75;     // seconds for all scenarios together
   unsigned long long schedules = 0, points = 0, accesses = 0, syncs = 0, diverged = 0, overflow = 0, validated = 0; std::size_t violations = 0;
   std::set<std::vector<std::uint64_t>> outcomes; std::string fam, samples;
   bool capped = false;
   mkdir((verif() + "/replays").c_str(), 0755);
   for (int s = 0; s < n_scenarios; s++) {
      const auto& sc = scenarios[s];
      const auto violate = [&] (const std::string& sched, const std::string& what) {
         const std::string path = verif() + "/replays/P01-" + sc.name + "-" + std::to_string(violations) + ".txt";
         std::ofstream o(path); o << "property P01\nscenario " << sc.name << " (" << sc.what << ")\nschedule " << sched << "\n" << what << "\nreplay: " << verif() << "/run.sh P01 quick --replay " << sc.name << ":" << sched << "\n";
         std::printf("VIOLATION property=P01 replay=%s\n   %s schedule %s: %s\n", path.c_str(), sc.name, sched.c_str(), what.c_str()); violations++;
      };
      if (!reference(s)) { violate("-", "a single thread alone does not finish"); continue; }
      std::vector<std::vector<Job>> queue(maxbound + 1); queue[0].push_back({{}, 0});
      std::vector<Running> live; std::vector<Result*> pool; for (int i = 0; i < W; i++) pool.push_back(area());
      unsigned long long n = 0, pmin = ~0ull, pmax = 0; std::vector<unsigned long long> percost(maxbound + 1); std::set<std::string> seen; bool stop = false; int completed = -1;
      const double scen_end = since() + (budget - since())/(n_scenarios - s);
      while (!stop) {
         int b = 0; while (b <= maxbound && queue[b].empty()) b++;
         // a bound is complete when nothing cheaper is queued or running
         int lowest = b; for (auto& l : live) lowest = std::min(lowest, l.job.cost);
         completed = std::max(completed, lowest - 1);
         if (b > maxbound && live.empty()) break;
         if (b <= maxbound && !pool.empty() && since() < scen_end) {
            Running x; x.job = queue[b].back(); queue[b].pop_back(); x.r = pool.back(); pool.pop_back(); x.t0 = std::chrono::steady_clock::now();
            x.pid = launch(s, x.job, x.r); live.push_back(x); continue;
         }
         if (live.empty()) { capped = true; break; }
         int st; const pid_t pid = waitpid(-1, &st, 0);
         for (std::size_t i = 0; i < live.size(); i++) if (live[i].pid == pid) {
            Running x = live[i]; live.erase(live.begin() + i);
            Result& r = *x.r; n++; percost[x.job.cost]++; points += r.npoints; accesses += r.nshared; syncs += r.nsync; diverged += r.diverged; overflow += r.overflow;
            pmin = std::min<unsigned long long>(pmin, r.npoints); pmax = std::max<unsigned long long>(pmax, r.npoints);
            std::string pr = judge(s, r, st);
            if (!pr.empty() && seen.size() < 3) {
               // replay twice before reporting
               std::vector<std::uint8_t> full; for (int k = 0; k < r.npoints; k++) full.push_back(r.pt[k].chosen);
               int same = 0; Result* q = area();
               for (int k = 0; k < 2; k++) { int s2; const pid_t p2 = launch(s, {full, 0}, q); waitpid(p2, &s2, 0); same += !judge(s, *q, s2).empty(); validated++; }
               munmap(q, sizeof(Result));
               while (!full.empty() && full.back() == 0) full.pop_back();
               if (same == 2 && seen.insert(pr.substr(0, 60)).second) violate(show(full), pr);
               else if (same < 2) { std::printf("note: %s %s not reproduced: %s\n", sc.name, show(full).c_str(), pr.c_str()); diverged++; }
               if (seen.size() >= 3) stop = true;
            }
            std::vector<std::uint64_t> oc{std::uint64_t(s), std::uint64_t(r.banners), std::uint64_t(r.bytes)}; for (int t = 0; t < sc.nthreads; t++) oc.push_back(r.hash[t]); outcomes.insert(oc);
            // deterministic replay of every 97th schedule: same choice structure, same results
            if (n % 97 == 1 && pr.empty()) { std::vector<std::uint8_t> full; for (int k = 0; k < r.npoints; k++) full.push_back(r.pt[k].chosen); Result* q = area(); int s2; const pid_t p2 = launch(s, {full, 0}, q); waitpid(p2, &s2, 0); validated++;
               if (q->npoints != r.npoints || std::memcmp(q->hash, r.hash, sizeof r.hash)) { std::printf("note: replay of %s diverged\n", sc.name); diverged++; } munmap(q, sizeof(Result)); }
            if (n % 501 == 1 && samples.size() < 2000) samples += (samples.empty() ? "\"" : ", \"") + std::string(sc.name) + ":" + show(x.job.pre) + "\"";
            // expand
            int cost = 0; std::vector<std::uint8_t> ch;
            for (int k = 0; k < r.npoints; k++) {
               const auto& p = r.pt[k];
               if (k >= static_cast<int>(x.job.pre.size())) {
                  const int c2 = cost + (p.cur_enabled ? 1 : 0);
                  if (c2 <= maxbound) for (int alt = 0; alt < p.n; alt++) if (alt != p.chosen) { Job j; j.pre = ch; j.pre.push_back(alt); j.cost = c2; queue[c2].push_back(j); }
               }
               if (p.cur_enabled && p.chosen != 0) cost++;
               ch.push_back(p.chosen);
            }
            pool.push_back(x.r); break;
         }
      }
      for (auto& l : live) { kill(l.pid, SIGKILL); waitpid(l.pid, nullptr, 0); }
      for (auto* p : pool) munmap(p, sizeof(Result));
      schedules += n;
      std::string pc; for (int k = 0; k <= maxbound; k++) pc += (k ? "/" : "") + std::to_string(percost[k]);
      std::printf("%-10s %d threads: %llu schedules (%s with 0/1/..%d preemptions), bound %d completed, %llu..%llu choice points\n", sc.name, sc.nthreads, n, pc.c_str(), maxbound, completed, pmin, pmax);
      std::fflush(stdout);
      fam += (fam.empty() ? "" : ",") + std::string("\n   {\"name\": \"") + sc.name + "\", \"what\": \"" + jesc(sc.what) + "\", \"threads\": " + std::to_string(sc.nthreads) + ", \"schedules\": " + std::to_string(n) + ", \"per_preemption_count\": \"" + pc + "\", \"completed_bound\": " + std::to_string(completed) + ", \"max_choice_points\": " + std::to_string(pmax) + "}";
   }

   // free-running companion under the real ThreadSanitizer (no scheduler: its hand-offs would hide races)
   std::string tsan = "not run"; unsigned long long runs = 0;
   if (const char* exe = getenv("P01_REAL")) {
      tsan = "ran";
      for (int s = 0; s < n_scenarios; s++) {
         const int reps = thorough() ? 60 : 4;
         const std::string cmd = std::string("TSAN_OPTIONS='exitcode=66 report_thread_leaks=0' setarch -R timeout 200 ") + exe + " " + std::to_string(s) + " " + std::to_string(reps) + " 2>&1";
         FILE* p = popen(cmd.c_str(), "r"); std::string out; char b[4096]; while (fgets(b, sizeof b, p)) if (out.size() < 20000) out += b; const int st = pclose(p);
         const bool started = out.find("RAN ") != std::string::npos || out.find("WARNING: ThreadSanitizer") != std::string::npos || out.find("DIFFERENT") != std::string::npos;
         if (!started) { tsan = "could not start: " + out.substr(0, 200); continue; }
         runs += reps;
         if (WEXITSTATUS(st) == 66 || WEXITSTATUS(st) == 5) {
            const std::string path = verif() + "/replays/P01-tsan-" + scenarios[s].name + ".txt"; std::ofstream o(path); o << "property P01, free-running ThreadSanitizer, scenario " << scenarios[s].name << "\n" << out << "\nreplay: " << cmd << "\n";
            const auto w = out.find("WARNING: Thr"); std::printf("VIOLATION property=P01 replay=%s\n   free-running %s: %s\n", path.c_str(), scenarios[s].name, out.substr(w == std::string::npos ? 0 : w, 600).c_str()); violations++;
         }
      }
   }
   { std::ofstream o(verif() + "/evidence/P01.json"); const char* seed = getenv("VERIF_SEED");
     o << "{\n \"property\": \"P01\",\n \"tier\": \"" << (thorough() ? "thorough" : "quick") << "\",\n \"seed\": " << (seed && *seed ? atol(seed) : 1) << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n"
       << "  \"states\": " << points << ",\n  \"transitions\": " << syncs << ",\n  \"traces_validated_against_impl\": " << validated << ",\n  \"schedules\": " << schedules << ",\n  \"preemption_bound\": " << maxbound << ",\n  \"exhaustive\": " << (capped || overflow ? "false" : "true")
       << ",\n  \"rule\": \"states = scheduling choice points visited, transitions = synchronisation operations executed under the scheduler; the implementation itself is explored, traces_validated = schedules replayed a second time with identical outcome\""
       << ",\n  \"shared_accesses_checked_for_races\": " << accesses << ",\n  \"distinct_outcomes\": " << outcomes.size() << ",\n  \"free_running_tsan\": \"" << jesc(tsan) << "\",\n  \"free_running_tsan_runs\": " << runs << ",\n  \"scenarios\": [" << fam << "],\n  \"samples\": [" << samples << "]\n },\n \"wall_s\": " << since()
       << ",\n \"assumptions\": [\"sequentially consistent interleavings at synchronisation operations; unsynchronised accesses are caught by the race detector\", \"iostream objects synchronise themselves (ISO C++)\", \"code inside libstdc++/libgfortran/libc is not instrumented\"],\n \"violations\": " << violations << "\n}\n"; }
   std::printf("P01: %llu schedules, %llu scheduling points, %llu shared accesses checked, tsan: %s (%llu runs), %zu violation(s), %.1f s\n", schedules, points, accesses, tsan.c_str(), runs, violations, since());
   if (violations) return 1;
   if (diverged || overflow) { std::printf("executions diverged (%llu) or overflowed (%llu)\n", diverged, overflow); return 3; }
   if (accesses == 0 || syncs == 0) { std::printf("vacuity: no shared access or synchronisation seen\n"); return 4; }
   return 0;
}
