#include "rt.hpp"
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>
#include <map>
#include <malloc.h>
#include <string>
#include <vector>
#include <new>

namespace sched {
Shared* S = nullptr;
static __thread int self = -1;
static __thread int inRt = 0;
static bool on = false;                   // this process is under control
static uint64_t procKey = 0;              // distinguishes objects of different processes
static int myRank = 0;
int rank() { return myRank; }

const char* verdictName(int v) { static const char* n[] = {"running", "finished", "deadlock", "no progress within the horizon", "data race", "schedule replay diverged", "internal error", "use after free", "misuse of a synchronisation object"}; return n[v]; }
Shared* createShared() { void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(97); } return static_cast<Shared*>(p); }
void reset(Shared* s) { s->npoints = 0; s->ops = 0; s->nthreads = 0; s->current = 0; s->verdict = V_RUNNING; s->msg[0] = 0; s->spuriousUsed = 0; s->streak = 0; s->accesses = 0; s->maxLive = 0; s->nmsgs = s->barrierCount = s->barrierRound = 0; memset(s->mx, 0, sizeof s->mx); memset(s->th, 0, sizeof s->th); }

[[noreturn]] static void die(int verdict, const char* fmt, ...) {
   va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
   S->verdict = verdict;
   syscall(SYS_exit_group, 70);
   __builtin_unreachable();
}

void fail(int verdict, const char* fmt, ...) {
   va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
   die(verdict, "rank %d: %s", myRank, std::string(S->msg).c_str());
}

// ---------------------------------------------------------------- real functions
template <typename F> static F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
#define REAL(ret, name, args) typedef ret (*name##_t) args; static name##_t real_##name() { static name##_t f = nullptr; if (!f) f = real<name##_t>(#name); return f; }
REAL(int, pthread_mutex_lock, (pthread_mutex_t*))
REAL(int, pthread_mutex_trylock, (pthread_mutex_t*))
REAL(int, pthread_mutex_unlock, (pthread_mutex_t*))
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*))
REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*))
REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))
REAL(int, pthread_cond_signal, (pthread_cond_t*))
REAL(int, pthread_cond_broadcast, (pthread_cond_t*))
REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))
REAL(int, pthread_join, (pthread_t, void**))
REAL(int, sched_yield, (void))
REAL(int, nanosleep, (const struct timespec*, struct timespec*))
REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec*, struct timespec*))
REAL(int, usleep, (unsigned))
typedef size_t (*fwrite_t)(const void*, size_t, size_t, FILE*);
REAL(int, putc, (int, FILE*))

// ---------------------------------------------------------------- futex token
static void waitToken(int t) { while (__atomic_load_n(&S->th[t].futex, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, &S->th[t].futex, FUTEX_WAIT, 0, nullptr, nullptr, 0); __atomic_store_n(&S->th[t].futex, 0, __ATOMIC_RELEASE); }
static void giveToken(int t) { __atomic_store_n(&S->th[t].futex, 1, __ATOMIC_RELEASE); syscall(SYS_futex, &S->th[t].futex, FUTEX_WAKE, 1, nullptr, nullptr, 0); }

// ---------------------------------------------------------------- happens-before
struct VC { uint32_t c[MAXT]; VC() { memset(c, 0, sizeof c); } void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Access { uint32_t clk; uint8_t mask; uint8_t tid; void* pc; };
struct Cell { std::vector<Access> w, r; bool freed = false; };
struct Hb {
   VC vc[MAXT];
   std::unordered_map<uint64_t, VC> sync;      // mutexes, atomics, guards
   std::unordered_map<uintptr_t, Cell> mem;
   int threads = 1;
   uintptr_t stackLo[MAXT], stackHi[MAXT];
   std::vector<std::pair<uintptr_t, uint32_t>> frames[MAXT]; // live function frames of a thread: lowest address, clock at entry
};
static Hb* hb = nullptr;
struct Guard { Guard() { ++inRt; } ~Guard() { --inRt; } };
static inline bool ctl() { return on && self >= 0 && inRt == 0; }
static inline uint64_t key(const void* p) { return (uint64_t(uintptr_t(p)) & 0x0000ffffffffffffull) | procKey; }
static void release(uint64_t k) { hb->sync[k].join(hb->vc[self]); ++hb->vc[self].c[self]; }
static void acquire(uint64_t k) { auto it = hb->sync.find(k); if (it != hb->sync.end()) hb->vc[self].join(it->second); }

static void forgetRange(uintptr_t lo, uintptr_t hi) {
   if (!hb || hb->mem.empty()) return;
   if (hi - lo > 65536) { for (auto it = hb->mem.begin(); it != hb->mem.end();) { uintptr_t a = it->first << 3; if (a >= lo && a < hi) it = hb->mem.erase(it); else ++it; } return; }
   for (uintptr_t a = lo >> 3; a <= (hi - 1) >> 3; ++a) hb->mem.erase(a);
}
extern "C" char __executable_start;
static void* rel(void* pc) { return reinterpret_cast<void*>(uintptr_t(pc) - uintptr_t(&__executable_start)); }
static void race(const char* what, uintptr_t addr, int t1, void* pc1, bool w1, int t2, void* pc2, bool w2) {
   die(V_RACE, "%s at %p: thread %d %s (pc %p) and thread %d %s (pc %p) are not ordered", what, (void*)addr, t2, w2 ? "writes" : "reads", rel(pc2), t1, w1 ? "writes" : "reads", rel(pc1));
}
// Another thread's stack: the frame that now covers the address must have been entered before anything the accessing
// thread can know of; otherwise the object the pointer was taken from is gone.
static void foreignStack(uintptr_t addr, void* pc) {
   for (int t = 0; t < S->nthreads; ++t) {
      if (t == self || addr < hb->stackLo[t] || addr >= hb->stackHi[t]) continue;
      auto& f = hb->frames[t];
      // outermost frames first, lower bounds decrease
      size_t lo = 0, hi = f.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (f[m].first <= addr) hi = m; else lo = m + 1; }
      if (lo == f.size() || f[lo].second > hb->vc[self].c[t]) die(V_UAF, "thread %d accesses a local object of a function of thread %d that has returned, at %p (pc %p)", self, t, (void*)addr, rel(pc));
   }
}
static void access(uintptr_t addr, size_t size, bool write, void* pc) {
   if (!ctl() || hb->threads < 2 || !S->raceDetection) return;
   Guard g; ++S->accesses;
   VC& me = hb->vc[self];
   if (addr < hb->stackLo[self] || addr >= hb->stackHi[self]) foreignStack(addr, pc);
   while (size) {
      size_t off = addr & 7, n = 8 - off; if (n > size) n = size;
      uint8_t mask = uint8_t(((1u << n) - 1) << off);
      Cell& c = hb->mem[addr >> 3];
      if (c.freed) die(V_UAF, "thread %d accesses freed heap memory at %p (pc %p)", self, (void*)addr, rel(pc));
      for (auto& a : c.w) if (a.tid != self && (a.mask & mask) && a.clk > me.c[a.tid]) race("memory", addr, self, pc, write, a.tid, a.pc, true);
      if (write) for (auto& a : c.r) if (a.tid != self && (a.mask & mask) && a.clk > me.c[a.tid]) race("memory", addr, self, pc, write, a.tid, a.pc, false);
      auto& l = write ? c.w : c.r; bool found = false;
      uint32_t now = me.c[self];
      for (auto& a : l) if (a.tid == self) { if (a.clk == now) a.mask |= mask; else { a.clk = now; a.mask = mask; } a.pc = pc; found = true; break; }
      if (!found) l.push_back({now, mask, uint8_t(self), pc});
      addr += n; size -= n;
   }
}

// ---------------------------------------------------------------- mutex table
static Mutex& mutexOf(uint64_t k) {
   unsigned h = unsigned((k * 0x9E3779B97F4A7C15ull) >> 40) % MAXMUTEX;
   for (int i = 0; i < MAXMUTEX; ++i) { Mutex& m = S->mx[(h + unsigned(i)) % MAXMUTEX]; if (m.key == k) return m; if (m.key == 0) { m.key = k; m.owner = -1; return m; } }
   die(V_INTERNAL, "mutex table full");
}

// ---------------------------------------------------------------- scheduling
bool (*recvReady)(int) = nullptr;
static bool enabled(int t) {
   Thread& x = S->th[t];
   switch (x.op) {
      case OP_START: case OP_POINT: return true;
      case OP_LOCK: return mutexOf(x.obj).owner < 0;
      case OP_JOIN: return S->th[x.obj].op == OP_FINISHED;
      case OP_GUARD: return mutexOf(x.obj).owner < 0;
      case OP_FUTEX: if (x.proc != myRank) return x.timedOut; return __atomic_load_n(reinterpret_cast<unsigned*>(x.obj), __ATOMIC_SEQ_CST) != unsigned(x.obj2);
      case OP_RECV: return recvReady && recvReady(t);
      default: return false;
   }
}
static int decide(Kind kind, int n, const uint8_t* cost, bool running) {
   if (n <= 1) return 0;
   if (S->npoints >= MAXPOINTS) die(V_HORIZON, "more than %d decisions", MAXPOINTS);
   int i = S->npoints++;
   Point& p = S->pts[i];
   p.kind = kind; p.n = uint8_t(n); p.running = running; p.choice = 0;
   for (int k = 0; k < n && k < MAXALT; ++k) p.cost[k] = S->delayBounded ? k > 0 : cost ? cost[k] : 0;
   if (i < S->prefixLen) { if (S->prefix[i] >= n) die(V_DIVERGED, "decision %d: alternative %d of %d", i, S->prefix[i], n); p.choice = S->prefix[i]; }
   return p.choice;
}
static void describe(char* b, size_t n) {
   static const char* on_[] = {"-", "start", "running", "lock", "condition wait", "timed wait", "join", "static guard", "receive", "future", "finished"};
   size_t k = 0; for (int t = 0; t < S->nthreads && k + 60 < n; ++t) k += size_t(snprintf(b + k, n - k, "thread %d: %s; ", t, on_[S->th[t].op]));
}
// The calling thread has set its pending operation; pick who continues and wait until it is this thread's turn again.
static void reschedule() {
   if (++S->ops > S->horizon) { char b[1200]; describe(b, sizeof b); die(V_HORIZON, "%ld operations without terminating; %s", S->ops, b); }
   if (S->streak > 400 && S->th[self].op == OP_POINT) S->th[self].yielded = 1; // a thread that spins makes way
   int alt[MAXALT]; uint8_t cost[MAXALT]; bool spur[MAXALT]; int n = 0;
   bool runningEnabled = enabled(self) && !S->th[self].yielded;
   if (runningEnabled) { alt[n] = self; cost[n] = 0; spur[n++] = false; }
   for (int k = 1; k <= S->nthreads; ++k) { int t = (runningEnabled || !S->th[self].yielded) ? k - 1 : (self + k) % S->nthreads; if ((runningEnabled && t == self) || t >= S->nthreads) continue; if (enabled(t) && n < MAXALT) { alt[n] = t; cost[n] = runningEnabled ? 1 : 0; spur[n++] = false; } }
   bool anyEnabled = n > 0;
   for (int t = 0; t < S->nthreads; ++t) {
      if (S->th[t].op == OP_TIMEDWAIT && n < MAXALT) { alt[n] = t; cost[n] = anyEnabled ? 1 : 0; spur[n++] = true; }
      else if (S->th[t].op == OP_CONDWAIT && anyEnabled && S->spuriousUsed < S->spurious && n < MAXALT) { alt[n] = t; cost[n] = 1; spur[n++] = true; }
   }
   if (n == 0) { char b[1200]; describe(b, sizeof b); die(V_DEADLOCK, "no thread can continue: %s", b); }
   cost[0] = 0;
   int c = decide(K_SCHED, n, cost, runningEnabled), t = alt[c];
   S->th[self].yielded = 0;
   if (spur[c]) { // time-out or spurious wake-up: the thread now has to get its mutex back
      if (S->th[t].op == OP_TIMEDWAIT) S->th[t].timedOut = 1; else ++S->spuriousUsed;
      S->th[t].op = OP_LOCK; S->th[t].obj = S->th[t].obj2;
      if (!enabled(t)) { // mutex held by someone: go on with the first alternative
         if (t == alt[0]) die(V_INTERNAL, "timed wait cannot continue");
         t = alt[0];
      }
   }
   S->current = t;
   if (t == self) { ++S->streak; return; }
   S->streak = 0;
   int me = self;
   giveToken(t);
   if (S->th[me].op == OP_FINISHED) return;
   waitToken(me);
}
static __thread uint64_t pollWhat = 0, pollArg = 0;
static __thread bool pauseDone = false;
static void point() { S->th[self].op = OP_POINT; reschedule(); }
void schedulePoint() { if (!ctl()) return; Guard g; point(); }
static void lockMutex(uint64_t k, bool recursive) {
   Mutex& m = mutexOf(k);
   if (m.owner == self) { if (recursive) { ++m.count; return; } die(V_DEADLOCK, "thread %d locks a mutex it already holds", self); }
   pauseDone = false; S->th[self].op = OP_LOCK; S->th[self].obj = k; reschedule();
   m.owner = self; m.count = 1; S->th[self].op = OP_POINT; acquire(k);
}
static void unlockMutex(uint64_t k) {
   Mutex& m = mutexOf(k);
   if (m.owner != self) die(V_MISUSE, "thread %d unlocks a mutex it does not hold", self);
   if (--m.count > 0) return;
   release(k); m.owner = -1;
}
static int locksHeld() { int n = 0; for (auto& m : S->mx) if (m.key && m.owner == self) ++n; return n; }

void polled(uint64_t what, uint64_t arg) { pollWhat = what; pollArg = arg; pauseDone = false; }
void blockOn(uint64_t what, uint64_t arg) { if (!ctl()) { usleep(50); return; } Guard g; S->th[self].obj = what; S->th[self].obj2 = arg; S->th[self].op = OP_RECV; reschedule(); S->th[self].op = OP_POINT; }
// A pause after a poll that found nothing: polling again before something arrives changes nothing, so wait for that.
static void pauseHere() {
   if (pollWhat) { uint64_t w = pollWhat; pollWhat = 0; pauseDone = true; S->th[self].obj = w; S->th[self].obj2 = pollArg; S->th[self].op = OP_RECV; reschedule(); S->th[self].op = OP_POINT; return; }
   if (pauseDone) return;
   S->th[self].yielded = 1; point();
}

void libraryUse(const void* lib) { access(uintptr_t(lib), 1, true, __builtin_return_address(0)); }
void begin(int r) {
   ++inRt; myRank = r;
   hb = new Hb; memset(hb->stackLo, 0, sizeof hb->stackLo); memset(hb->stackHi, 0, sizeof hb->stackHi); { pthread_attr_t a; if (pthread_getattr_np(pthread_self(), &a) == 0) { void* lo; size_t sz; pthread_attr_getstack(&a, &lo, &sz); pthread_attr_destroy(&a); hb->stackLo[0] = uintptr_t(lo); hb->stackHi[0] = uintptr_t(lo) + sz; } }
   procKey = 0; on = true;
   if (S->ranks) { procKey = uint64_t(r + 1) << 48; self = r; S->th[r].proc = uint8_t(r); if (r) waitToken(r); S->maxLive = S->ranks; }
   else { self = S->nthreads++; S->current = self; S->maxLive = 1; }
   S->th[self].op = OP_POINT; hb->vc[self].c[self] = 1;
   --inRt;
}
void finish() {
   if (!on) return;
   ++inRt;
   if (S->ranks) {
      S->th[self].op = OP_FINISHED;
      bool all = true; for (int t = 0; t < S->nthreads; ++t) if (S->th[t].op != OP_FINISHED) { all = false; if (S->th[t].proc == myRank) die(V_MISUSE, "rank %d ends while its thread %d is running", myRank, t); }
      if (!all) { reschedule(); on = false; return; }
   }
   on = false; if (S->verdict == V_RUNNING) S->verdict = V_OK;
}

// ---------------------------------------------------------------- threads
struct Boot { void* (*fn)(void*); void* arg; int id; };
static void* trampoline(void* p) {
   Boot b = *static_cast<Boot*>(p); ++inRt; delete static_cast<Boot*>(p);
   self = b.id;
   waitToken(self);
   { pthread_attr_t a; if (pthread_getattr_np(pthread_self(), &a) == 0) { void* lo; size_t sz; pthread_attr_getstack(&a, &lo, &sz); pthread_attr_destroy(&a); forgetRange(uintptr_t(lo), uintptr_t(lo) + sz); hb->frames[self].clear(); hb->stackLo[self] = uintptr_t(lo); hb->stackHi[self] = uintptr_t(lo) + sz; } }
   S->th[self].op = OP_POINT;
   --inRt;
   void* r = b.fn(b.arg);
   ++inRt;
   ++hb->vc[self].c[self];
   S->th[self].op = OP_FINISHED;
   hb->stackHi[self] = hb->stackLo[self] = 0;
   reschedule();
   return r;
}
static std::map<pthread_t, int>* ids = nullptr;
} // namespace sched

using namespace sched;

extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
   if (!ctl()) return real_pthread_create()(out, attr, fn, arg);
   Guard g;
   if (S->nthreads >= MAXT) die(V_INTERNAL, "too many threads");
   int id = S->nthreads;
   Boot* b = new Boot{fn, arg, id};
   S->th[id].op = OP_START; S->th[id].futex = 0; S->th[id].proc = uint8_t(myRank);
   hb->vc[id] = hb->vc[self]; hb->vc[id].c[id] = 1; ++hb->vc[self].c[self]; ++hb->threads;
   ++S->nthreads;
   int live = 0; for (int i = 0; i < S->nthreads; ++i) if (S->th[i].op != OP_FINISHED) ++live; if (live > S->maxLive) S->maxLive = live;
   int r = real_pthread_create()(out, attr, trampoline, b);
   if (r) die(V_INTERNAL, "pthread_create failed");
   if (!ids) ids = new std::map<pthread_t, int>;
   (*ids)[*out] = id;
   point();
   return 0;
}
int pthread_join(pthread_t t, void** ret) {
   if (ctl()) {
      Guard g; auto it = ids ? ids->find(t) : std::map<pthread_t, int>::iterator();
      if (ids && it != ids->end()) { int id = it->second; S->th[self].op = OP_JOIN; S->th[self].obj = uint64_t(id); reschedule(); S->th[self].op = OP_POINT; hb->vc[self].join(hb->vc[id]); ids->erase(it); }
   }
   ++inRt; int r = real_pthread_join()(t, ret); --inRt; return r;
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (!ctl()) return real_pthread_mutex_lock()(m); Guard g; lockMutex(key(m), (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!ctl()) return real_pthread_mutex_trylock()(m); Guard g; point(); Mutex& x = mutexOf(key(m)); if (x.owner >= 0) { if (x.owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++x.count; return 0; } S->th[self].yielded = 1; return EBUSY; } x.owner = self; x.count = 1; acquire(key(m)); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!ctl()) return real_pthread_mutex_unlock()(m); Guard g; unlockMutex(key(m)); return 0; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
   Guard g; uint64_t k = key(m);
   Mutex& x = mutexOf(k); if (x.owner != self) die(V_MISUSE, "condition wait without holding the mutex"); int count = x.count; x.count = 1; unlockMutex(k);
   Thread& t = S->th[self]; t.op = timed ? OP_TIMEDWAIT : OP_CONDWAIT; t.obj = key(c); t.obj2 = k; t.timedOut = 0;
   reschedule();
   Mutex& y = mutexOf(k); y.owner = self; y.count = count; t.op = OP_POINT; acquire(k);
   return t.timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!ctl()) return real_pthread_cond_wait()(c, m); return condWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!ctl()) return real_pthread_cond_timedwait()(c, m, ts); return condWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) { if (!ctl()) return real_pthread_cond_clockwait()(c, m, id, ts); return condWait(c, m, true); }
static int wake(pthread_cond_t* c, bool all) {
   Guard g; point();
   int w[MAXT], n = 0; uint64_t k = key(c);
   for (int t = 0; t < S->nthreads; ++t) if ((S->th[t].op == OP_CONDWAIT || S->th[t].op == OP_TIMEDWAIT) && S->th[t].obj == k) w[n++] = t;
   if (n == 0) return 0;
   int from = 0, to = n;
   if (!all) { from = decide(K_SIGNAL, n > MAXALT ? int(MAXALT) : n, nullptr, false); to = from + 1; }
   for (int i = from; i < to; ++i) { S->th[w[i]].op = OP_LOCK; S->th[w[i]].obj = S->th[w[i]].obj2; }
   return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { if (!ctl()) return real_pthread_cond_signal()(c); return wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!ctl()) return real_pthread_cond_broadcast()(c); return wake(c, true); }
int sched_yield() { if (!ctl()) return real_sched_yield()(); Guard g; pauseHere(); return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) { if (!ctl()) return real_nanosleep()(a, b); Guard g; pauseHere(); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { if (!ctl()) return real_clock_nanosleep()(c, f, a, b); Guard g; pauseHere(); return 0; }
int usleep(unsigned u) { if (!ctl()) return real_usleep()(u); Guard g; pauseHere(); return 0; }

int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
// reader-writer locks: every holder excludes every other one
static int rwLock(pthread_rwlock_t* l) { if (!ctl()) return 0; Guard g; lockMutex(key(l), true); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rwLock(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rwLock(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rwLock(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rwLock(l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { if (!ctl()) return 0; Guard g; unlockMutex(key(l)); return 0; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
   volatile int* st = reinterpret_cast<volatile int*>(o);
   if (*st == 2) { if (ctl()) { Guard g; acquire(key(o)); } return 0; }
   if (!ctl()) { if (*st == 0) { *st = 1; fn(); *st = 2; } return 0; }
   uint64_t k = key(o) | (1ull << 62);
   { Guard g; Mutex* m = &mutexOf(k); while (m->owner >= 0 && *st != 2) { S->th[self].op = OP_GUARD; S->th[self].obj = k; reschedule(); S->th[self].op = OP_POINT; m = &mutexOf(k); }
     if (*st == 2) { acquire(key(o)); return 0; }
     m->owner = self; m->count = 1; }
   fn();
   { Guard g; *st = 2; release(key(o)); mutexOf(k).owner = -1; }
   return 0;
}

// function-local statics
int __cxa_guard_acquire(uint64_t* g) {
   volatile char* done = reinterpret_cast<volatile char*>(g);
   if (!ctl()) { if (*done) return 0; return 1; }
   Guard gg; uint64_t k = key(g) | (1ull << 63);
   if (*done) { acquire(key(g)); return 0; }
   Mutex& m = mutexOf(k);
   while (m.owner >= 0) { if (m.owner == self) die(V_DEADLOCK, "recursive initialisation of a static"); S->th[self].op = OP_GUARD; S->th[self].obj = k; reschedule(); S->th[self].op = OP_POINT; }
   if (*done) { acquire(key(g)); return 0; }
   m.owner = self; m.count = 1; return 1;
}
void __cxa_guard_release(uint64_t* g) { __atomic_store_n(reinterpret_cast<char*>(g), 1, __ATOMIC_RELEASE); if (!ctl()) return; Guard gg; release(key(g)); mutexOf(key(g) | (1ull << 63)).owner = -1; }
void __cxa_guard_abort(uint64_t* g) { if (!ctl()) return; Guard gg; mutexOf(key(g) | (1ull << 63)).owner = -1; }

// standard output is one shared object: unordered writers could mix their lines
static void outputAccess(FILE* f, void* pc) {
   if (f != stdout || !ctl() || hb->threads < 2) return;
   { Guard g; if (locksHeld() == 0) point(); }
   access(uintptr_t(f), 1, true, pc);
}
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) { static fwrite_t r = nullptr; if (!r) r = real<fwrite_t>("fwrite"); outputAccess(f, __builtin_return_address(0)); return r(p, s, n, f); }
#undef putc
int putc(int c, FILE* f) { outputAccess(f, __builtin_return_address(0)); return real_putc()(c, f); }

// ---------------------------------------------------------------- compiler instrumentation (-fsanitize=thread)
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) { if (on && self >= 0) { ++inRt; hb->frames[self].push_back({uintptr_t(__builtin_frame_address(0)) + 16, hb->vc[self].c[self]}); --inRt; } }
void __tsan_func_exit() { if (on && self >= 0 && !hb->frames[self].empty()) hb->frames[self].pop_back(); }
#define RW(n) void __tsan_read##n(void* a) { access(uintptr_t(a), n, false, PC); } void __tsan_write##n(void* a) { access(uintptr_t(a), n, true, PC); } \
   void __tsan_unaligned_read##n(void* a) { access(uintptr_t(a), n, false, PC); } void __tsan_unaligned_write##n(void* a) { access(uintptr_t(a), n, true, PC); } \
   void __tsan_volatile_read##n(void* a) { access(uintptr_t(a), n, false, PC); } void __tsan_volatile_write##n(void* a) { access(uintptr_t(a), n, true, PC); } \
   void __tsan_read_write##n(void* a) { access(uintptr_t(a), n, true, PC); } void __tsan_unaligned_read_write##n(void* a) { access(uintptr_t(a), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(uintptr_t(a), n, false, PC); }
void __tsan_write_range(void* a, size_t n) { access(uintptr_t(a), n, true, PC); }
void __tsan_vptr_update(void** a, void*) { access(uintptr_t(a), 8, true, PC); }
void __tsan_vptr_read(void** a) { access(uintptr_t(a), 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(uintptr_t(s), n, false, PC); access(uintptr_t(d), n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(uintptr_t(s), n, false, PC); access(uintptr_t(d), n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(uintptr_t(d), n, true, PC); return memset(d, c, n); }
static void atomicOp(volatile void* a, bool acq, bool rel) { if (!ctl()) return; Guard g; point(); uint64_t k = key(const_cast<const void*>(a)); if (acq) acquire(k); if (rel) release(k); }
#define ATOMIC(bits, T) \
   T __tsan_atomic##bits##_load(const volatile T* a, int) { atomicOp(const_cast<volatile T*>(a), true, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
   void __tsan_atomic##bits##_store(volatile T* a, T v, int) { atomicOp(a, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { atomicOp(a, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { atomicOp(a, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { atomicOp(a, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { atomicOp(a, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { atomicOp(a, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { atomicOp(a, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { atomicOp(a, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
   int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { atomicOp(a, true, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { atomicOp(a, true, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) { atomicOp(a, true, true); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (!ctl()) return; Guard g; acquire(key(&S)); release(key(&S)); }
void __tsan_atomic_signal_fence(int) {}
} // extern "C"
// futures wait inside the C++ library: block until the status word changes
namespace std { struct __atomic_futex_unsigned_base {
   static bool _M_futex_wait_until(unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds);
   static bool _M_futex_wait_until_steady(unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds);
   static void _M_futex_notify_all(unsigned*); }; }
static bool futexWait(unsigned* a, unsigned v, bool timed) {
   if (!ctl()) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == v) real_sched_yield()(); return true; }
   Guard g;
   if (timed) { S->th[self].yielded = 1; point(); return __atomic_load_n(a, __ATOMIC_ACQUIRE) != v; }
   S->th[self].op = OP_FUTEX; S->th[self].obj = uint64_t(uintptr_t(a)); S->th[self].obj2 = v; S->th[self].timedOut = 0; reschedule(); S->th[self].op = OP_POINT; return true;
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) { return futexWait(a, v, timed); }
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) { return futexWait(a, v, timed); }
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { if (ctl()) { Guard g; for (int t = 0; t < S->nthreads; ++t) if (S->th[t].op == OP_FUTEX && S->th[t].proc == myRank && S->th[t].obj == uint64_t(uintptr_t(a))) S->th[t].timedOut = 1; } schedulePoint(); }

#ifndef VP_ASAN // the address sanitizer brings its own
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
static inline void fresh(void* p, size_t n) { if (p && ctl() && hb->threads > 1) { Guard g; size_t u = malloc_usable_size(p); forgetRange(uintptr_t(p), uintptr_t(p) + (u ? u : 1)); } }
void* malloc(size_t n) noexcept { void* p = __libc_malloc(n); fresh(p, n); return p; }
void* calloc(size_t a, size_t b) noexcept { void* p = __libc_calloc(a, b); fresh(p, a * b); return p; }
void* realloc(void* q, size_t n) noexcept { void* p = __libc_realloc(q, n); fresh(p, n); return p; }
}
// ---------------------------------------------------------------- heap: new memory has no history; freed memory must not be used
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return ::operator new(n); }
void operator delete(void* p) noexcept {
   if (!p) return;
   if (ctl() && hb->threads > 1) {
      size_t n = malloc_usable_size(p);
      if (n <= 1 << 16) { access(uintptr_t(p), n, true, __builtin_return_address(0)); Guard g; for (uintptr_t a = uintptr_t(p) >> 3; a <= (uintptr_t(p) + n - 1) >> 3; ++a) { Cell& c = hb->mem[a]; c.freed = true; c.w.clear(); c.r.clear(); } }
      Guard g; free(p); return;
   }
   free(p);
}
void operator delete[](void* p) noexcept { ::operator delete(p); }
void operator delete(void* p, size_t) noexcept { ::operator delete(p); }
void operator delete[](void* p, size_t) noexcept { ::operator delete(p); }
#endif
