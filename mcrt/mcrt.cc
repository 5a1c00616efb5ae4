// See mcrt.h and DESIGN.md.  Not instrumented.
#include "mcrt.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <map>
#include <new>
#include <set>
#include <unordered_map>

namespace mcrt {
namespace {

const int kMaxThreads = 640;
const int kMaxPoints = 40000;
const int kMsg = 4096;

inline uint64_t Mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull + (a << 6) + (a >> 2));
  x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 29;
  return x;
}

// ---------------------------------------------------------------- shared memory
struct Point {
  uint8_t chosen;
  uint8_t alts;      // number of candidates
  uint8_t dev;       // deviations used before this point
  uint8_t pruned;    // state already visited with as much budget left
};

struct Result {      // one per worker, written by the execution
  int npoints;
  int done;          // 1: ran to completion, 2: violation
  int replay_len;
  int diverged;
  uint64_t steps;
  uint64_t outcome_hash;
  uint64_t new_states;
  uint64_t accesses;
  uint64_t switches;
  uint32_t threads;
  char msg[kMsg];
  char outcome[kMsg];
  Point points[kMaxPoints];
};

struct Shared {
  volatile int lock;
  int idle;
  int stop;
  int nqueue;
  int violations;
  uint64_t executions, steps, states, pruned_runs, accesses, switches, max_points, max_threads, capped;
  char first_outcome[kMsg];
  int have_outcome;
  int noutcomes;
  uint64_t outcomes[1024];
  char msg[kMsg];
  int vlen;
  uint8_t vprefix[kMaxPoints];
};
const int kQueue = 512;
const int kMaxPrefix = kMaxPoints;

Shared* g_sh;
uint8_t* g_queue;        // kQueue entries of (int len, bytes)
uint64_t* g_visited;     // shared hash table
const uint64_t kVisited = 1ull << 24;

void LockSh() { while (__sync_lock_test_and_set(&g_sh->lock, 1)) usleep(0); }
void UnlockSh() { __sync_lock_release(&g_sh->lock); }

// Returns true if the state was already claimed with at most `dev` deviations used.
bool Visit(uint64_t key, int dev, bool* fresh) {
  *fresh = false;
  uint64_t k = (key << 8) | 0xff;       // upper 56 bits of information
  if ((k >> 8) == 0) k |= 1ull << 8;
  uint64_t idx = Mix(key, 1) & (kVisited - 1);
  for (uint64_t n = 0; n < 4096; ++n, idx = (idx + 1) & (kVisited - 1)) {
    uint64_t cur = __atomic_load_n(&g_visited[idx], __ATOMIC_ACQUIRE);
    while (cur == 0) {
      uint64_t want = (k & ~0xffull) | (uint64_t)(dev & 0xff);
      if (__atomic_compare_exchange_n(&g_visited[idx], &cur, want, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
        *fresh = true;
        return false;
      }
    }
    if ((cur | 0xff) == k) {
      while (true) {
        if ((int)(cur & 0xff) <= dev) return true;
        uint64_t want = (cur & ~0xffull) | (uint64_t)dev;
        if (__atomic_compare_exchange_n(&g_visited[idx], &cur, want, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE))
          return false;
      }
    }
  }
  return false;  // table full: do not prune
}

// ---------------------------------------------------------------- real functions
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
create_t real_create;
int (*real_join)(pthread_t, void**);
int (*real_detach)(pthread_t);
int (*real_mlock)(pthread_mutex_t*);
int (*real_mtrylock)(pthread_mutex_t*);
int (*real_munlock)(pthread_mutex_t*);
int (*real_cwait)(pthread_cond_t*, pthread_mutex_t*);
int (*real_ctimed)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int (*real_cclock)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int (*real_csignal)(pthread_cond_t*);
int (*real_cbroadcast)(pthread_cond_t*);
int (*real_rdlock)(pthread_rwlock_t*);
int (*real_wrlock)(pthread_rwlock_t*);
int (*real_rwunlock)(pthread_rwlock_t*);
int (*real_once)(pthread_once_t*, void (*)());
int (*real_yield)();
int (*real_nanosleep)(const struct timespec*, struct timespec*);
int (*real_clock_nanosleep)(clockid_t, int, const struct timespec*, struct timespec*);
int (*real_usleep)(useconds_t);

template <class F> void Resolve(F& f, const char* name) {
  if (!f) f = (F)dlsym(RTLD_NEXT, name);
}

// ---------------------------------------------------------------- threads
enum OpKind { kNone, kStart, kLock, kCvWait, kCvReady, kSignal, kCreate, kJoin, kAtomic, kYield,
              kFutexWait, kRdLock, kWrLock, kOnceWait, kGuardWait, kEnd, kTimedWait, kTimedFutex };

struct VC { uint32_t c[kMaxThreads]; };

struct Thr {
  int id;
  uint64_t h;           // happens-before signature
  uint32_t children;
  OpKind op;
  void* obj;
  void* obj2;
  bool finished, joined_by_end, detached;
  bool yielded;
  bool signalled, timed_out, spurious;
  int futex_expect;
  sem_t sem;
  pthread_t real;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  VC* vc;
};

struct Obj {
  int owner = -1;            // mutex / guard / once in progress / rwlock writer
  int count = 0;             // recursion / readers
  int state = 0;             // once: 2 done
  uint64_t version = 0;
  VC* vc = nullptr;
  std::vector<int> waiters;  // condition variable, FIFO
};

bool g_active = false;       // an execution is running
thread_local Thr* t_self = nullptr;
thread_local int t_internal = 0;  // inside the runtime: no instrumentation
std::vector<Thr*>* g_thr;
std::unordered_map<void*, Obj>* g_obj;
Thr* g_cur;
Result* g_res;
std::vector<uint8_t>* g_prefix;
int g_bound, g_spurious_left, g_horizon;
bool g_rotate;
int g_dev;
bool g_prune_stop;
int g_live;
long g_live_blocks;

struct Internal { Internal() { ++t_internal; } ~Internal() { --t_internal; } };

VC* NewVC() { return (VC*)calloc(1, sizeof(VC)); }
void JoinVC(VC* a, const VC* b) {
  int n = g_thr->size();
  for (int i = 0; i < n; ++i) if (b->c[i] > a->c[i]) a->c[i] = b->c[i];
}
void Acquire(Thr* t, Obj& o) { if (o.vc) JoinVC(t->vc, o.vc); }
void Release(Thr* t, Obj& o) {
  if (!o.vc) o.vc = NewVC();
  JoinVC(o.vc, t->vc);
  ++t->vc->c[t->id];
}
void Bump(Thr* t, OpKind k, Obj& o) {
  t->h = Mix(Mix(t->h, k), o.version);
  o.version = t->h;
}

[[noreturn]] void EndViolation(const std::string& msg) {
  ++t_internal;
  snprintf(g_res->msg, kMsg, "%s", msg.c_str());
  g_res->done = 2;
  _exit(77);
}

std::string Describe() {
  static const char* names[] = {"running", "start", "lock", "cond-wait", "cond-wake", "signal", "create", "join",
    "atomic", "yield", "futex-wait", "rdlock", "wrlock", "once", "static-init", "end", "timed-wait", "timed-futex-wait"};
  std::string s;
  for (Thr* t : *g_thr) {
    if (t->finished) continue;
    s += " T" + std::to_string(t->id) + ":" + names[t->op];
  }
  return s;
}

// ---------------------------------------------------------------- memory: freed ranges
struct Range { uintptr_t end; int tid; uint32_t clk; };
std::map<uintptr_t, Range>* g_freed;       // quarantined heap blocks
std::unordered_map<void*, size_t>* g_sizes;

bool IsFreed(uintptr_t a, size_t n) {
  if (g_freed->empty()) return false;
  auto it = g_freed->upper_bound(a + n - 1);
  if (it == g_freed->begin()) return false;
  --it;
  return it->second.end > a;
}

// ---------------------------------------------------------------- shadow
struct Entry { uint16_t tid; uint8_t mask; uint8_t flags; uint32_t clk; void* pc; };  // flags: 1 write, 2 atomic
struct Gran { uintptr_t key; uint16_t n, cap; uint32_t freed; Entry in[3]; Entry* more; };
Gran* g_shadow;
const uint64_t kShadow = 1ull << 21;

Gran* FindGran(uintptr_t key) {
  // Neighbouring granules share pages: few page faults per execution.
  uint64_t i = ((((key >> 5) * 0x9E3779B97F4A7C15ull) >> 43) & ~31ull) | (key & 31);
  while (true) {
    Gran* g = &g_shadow[i];
    if (g->key == key) return g;
    if (g->key == 0) { g->key = key; return g; }
    i = (i + 1) & (kShadow - 1);
  }
}

std::string Where(void* pc) {
  char buf[512];
  Dl_info info;
  uintptr_t a = (uintptr_t)pc - 1;
  if (dladdr((void*)a, &info) && info.dli_fname) {
    snprintf(buf, sizeof buf, "[[%s+0x%lx]]", info.dli_fname, (unsigned long)(a - (uintptr_t)info.dli_fbase));
    return buf;
  }
  return "[[?]]";
}

[[noreturn]] void Race(Thr* t, const Entry& old, bool write, bool freeing, void* pc, uintptr_t addr) {
  char b[256];
  snprintf(b, sizeof b, "data race: %s by T%d %%s and %s by T%d %%s are not ordered", (old.flags & 1) ? "write" : "read",
           old.tid, freeing ? "free" : write ? "write" : "read", t->id);
  char c[1600];
  snprintf(c, sizeof c, b, Where(old.pc).c_str(), Where(pc).c_str());
  (void)addr;
  EndViolation(c);
}

inline void Access1(Thr* t, uintptr_t key, uint8_t mask, bool write, bool atomic, void* pc, bool freeing) {
  Gran* g = FindGran(key + 1);
  if (g->freed && !freeing) {
    // Some part of the granule was freed: exact check.
    uintptr_t a = (key << 3) + __builtin_ctz(mask);
    size_t n = 32 - __builtin_clz((unsigned)mask) - __builtin_ctz(mask);
    if (IsFreed(a, n))
      EndViolation(std::string("use of freed memory: ") + (write ? "write" : "read") + " by T" +
                   std::to_string(t->id) + " " + Where(pc));
  }
  uint32_t myclk = t->vc->c[t->id];
  uint8_t fl = (write ? 1 : 0) | (atomic ? 2 : 0);
  Entry* list = g->more ? g->more : g->in;
  int j = 0;
  bool merged = false;
  for (int i = 0; i < g->n; ++i) {
    Entry e = list[i];
    if (e.tid == t->id) {
      if (e.flags == fl) {
        if (e.clk == myclk) { e.mask |= mask; e.pc = pc; list[j++] = e; merged = true; continue; }
        if ((e.mask & ~mask) == 0) continue;          // replaced by the new entry
      } else if (write && (e.mask & ~mask) == 0 && (!atomic || (e.flags & 2))) {
        continue;                                     // a write subsumes an older own access
      }
      list[j++] = e;
      continue;
    }
    bool ordered = e.clk <= t->vc->c[e.tid];
    if (e.mask & mask) {
      if (!ordered && ((e.flags & 1) || write) && !((e.flags & 2) && atomic)) Race(t, e, write, freeing, pc, key << 3);
      if (ordered && write && !atomic && (e.mask & ~mask) == 0) continue;  // superseded
    }
    list[j++] = e;
  }
  g->n = j;
  if (!merged) {
    int cap = g->more ? g->cap : 3;
    if (g->n == cap) {
      Entry* m = (Entry*)malloc(sizeof(Entry) * cap * 2);
      memcpy(m, list, sizeof(Entry) * g->n);
      if (g->more) free(g->more);
      g->more = m; g->cap = cap * 2; list = m;
    }
    list[g->n++] = Entry{(uint16_t)t->id, mask, fl, myclk, pc};
  }
}

void AccessRange(uintptr_t a, size_t n, bool write, bool atomic, void* pc, bool freeing = false) {
  Thr* t = t_self;
  if (!t || t_internal || !g_active || n == 0) return;
  Internal in;
  uintptr_t first = a >> 3, last = (a + n - 1) >> 3;
  g_res->accesses += last - first + 1;
  for (uintptr_t k = first; k <= last; ++k) {
    unsigned lo = k == first ? (a & 7) : 0;
    unsigned hi = k == last ? ((a + n - 1) & 7) : 7;
    uint8_t mask = (uint8_t)(((1u << (hi + 1)) - 1) & ~((1u << lo) - 1));
    Access1(t, k, mask, write, atomic, pc, freeing);
  }
}

// ---------------------------------------------------------------- scheduler
bool FutexReady(Thr* t) { return t->signalled || *(volatile int*)t->obj != t->futex_expect; }
// A timed wait that can only end by its timeout.
bool OnlyTimeout(Thr* t) { return t->op == kTimedWait || (t->op == kTimedFutex && !FutexReady(t)); }
bool Enabled(Thr* t) {
  switch (t->op) {
    case kLock: case kCvReady: {
      auto it = g_obj->find(t->op == kLock ? t->obj : t->obj2);
      if (it == g_obj->end() || it->second.owner < 0) return true;
      return false;
    }
    case kCvWait: return false;
    case kTimedWait: case kTimedFutex: return true;       // may time out
    case kJoin: return ((Thr*)t->obj)->finished;
    case kFutexWait: return FutexReady(t);
    case kRdLock: { Obj& o = (*g_obj)[t->obj]; return o.owner < 0; }
    case kWrLock: { Obj& o = (*g_obj)[t->obj]; return o.owner < 0 && o.count == 0; }
    case kOnceWait: case kGuardWait: { Obj& o = (*g_obj)[t->obj]; return o.owner < 0; }
    case kEnd: return g_live == 1;
    default: return true;
  }
}

uint64_t StateKey(Thr* cur) {
  uint64_t s = 0;
  for (Thr* t : *g_thr) s += Mix(t->h, Mix(t->finished ? 1 : 0, t->op));
  uint64_t c = 0;
  if (g_bound >= 0 && cur && !cur->finished) c = cur->h;
  return Mix(s, Mix(c, g_spurious_left));
}

// Chooses the next thread to run. `self` is the calling thread (possibly finished).
Thr* Choose(Thr* self) {
  Thr* cand[kMaxThreads * 2];
  bool spur[kMaxThreads * 2];
  int n = 0;
  int nt = g_thr->size();
  bool any_nonyield = false;
  for (Thr* t : *g_thr)
    if (!t->finished && !OnlyTimeout(t) && Enabled(t) && !(t->yielded)) any_nonyield = true;
  auto usable = [&](Thr* t) {
    if (t->finished || !Enabled(t)) return false;
    if (t->yielded && any_nonyield) return false;
    return true;
  };
  if (!g_rotate && !self->finished && !OnlyTimeout(self) && usable(self)) { cand[n] = self; spur[n++] = false; }
  for (int pass = 0; pass < 2; ++pass)  // timed waits last: a timeout is a deviation unless nothing else runs
    for (int i = 1; i <= nt; ++i) {
      Thr* t = (*g_thr)[(self->id + i) % nt];
      if (OnlyTimeout(t) != (pass == 1)) continue;
      if (t == self && n > 0 && !g_rotate && cand[0] == self) continue;
      if (usable(t)) { cand[n] = t; spur[n++] = false; }
    }
  if (n == 0) {
    std::string d = Describe();
    EndViolation("deadlock:" + d);
  }
  if (g_spurious_left > 0)
    for (int i = 1; i <= nt; ++i) {
      Thr* t = (*g_thr)[(self->id + i) % nt];
      if (!t->finished && t->op == kCvWait) { cand[n] = t; spur[n++] = true; }
    }
  int pick = 0;
  ++g_res->steps;
  if (n > 1) {
    int i = g_res->npoints;
    if (i >= g_horizon || i >= kMaxPoints) EndViolation("livelock: no termination within the horizon:" + Describe());
    Point& p = g_res->points[i];
    p.dev = g_dev;
    p.pruned = 0;
    if (i < (int)g_prefix->size()) {
      pick = (*g_prefix)[i];
      if (pick >= n) { g_res->diverged = 1; EndViolation("replay diverged"); }
      g_prune_stop = false;
    } else {
      if (!g_prune_stop) {
        bool fresh;
        if (Visit(StateKey(self), g_dev, &fresh)) g_prune_stop = true;
        if (fresh) ++g_res->new_states;
      }
      p.pruned = g_prune_stop;
    }
    p.alts = n > 255 ? 255 : n;
    p.chosen = pick;
    if (pick != 0) ++g_dev;
    g_res->npoints = i + 1;
  }
  Thr* t = cand[pick];
  if (spur[pick]) {
    --g_spurious_left;
    t->spurious = true;
    t->op = kCvReady;
    Obj& cv = (*g_obj)[t->obj];
    for (size_t i = 0; i < cv.waiters.size(); ++i)
      if (cv.waiters[i] == t->id) { cv.waiters.erase(cv.waiters.begin() + i); break; }
    t->h = Mix(t->h, 0x5b);
    if (!Enabled(t)) return Choose(self);
  }
  for (Thr* u : *g_thr) u->yielded = false;
  return t;
}

void SwitchTo(Thr* self, Thr* next) {
  if (next == self) return;
  ++g_res->switches;
  g_cur = next;
  sem_post(&next->sem);
  if (!self->finished) {
    while (sem_wait(&self->sem) != 0) {}
  }
}

// A scheduling point: returns when the calling thread is chosen and its operation is enabled.
void PointOp(OpKind k, void* obj, void* obj2 = nullptr) {
  Thr* t = t_self;
  t->op = k; t->obj = obj; t->obj2 = obj2;
  SwitchTo(t, Choose(t));
  t->op = kNone;
  t->h = Mix(t->h, 0x100 + k);  // every step changes the state
}

bool Controlled() { return g_active && t_self && !t_self->finished && t_internal == 0; }

void CheckLive(void* p, const char* what, void* pc) {
  if (IsFreed((uintptr_t)p, 1)) EndViolation(std::string("use of freed memory: ") + what + " by T" +
                                             std::to_string(t_self->id) + " " + Where(pc));
}

void* ThreadMain(void* a) {
  Thr* t = (Thr*)a;
  t_internal = 1;
  t_self = t;
  while (sem_wait(&t->sem) != 0) {}
  t->op = kNone;
  t_internal = 0;
  t->ret = t->fn(t->arg);
  ++t_internal;
  t->finished = true;
  t->h = Mix(t->h, 0xe0d);
  ++t->vc->c[t->id];
  --g_live;
  Thr* next = Choose(t);
  g_cur = next;
  sem_post(&next->sem);
  return t->ret;
}

Thr* NewThread(Thr* parent) {
  if ((int)g_thr->size() >= kMaxThreads) EndViolation("harness: too many threads");
  Thr* t = new Thr();
  t->id = g_thr->size();
  t->vc = NewVC();
  g_thr->push_back(t);
  if (parent) {
    JoinVC(t->vc, parent->vc);
    t->h = Mix(parent->h, 0x7777 + ++parent->children);
    parent->h = Mix(parent->h, 0x8888);
    ++parent->vc->c[parent->id];
  } else {
    t->h = 1;
  }
  t->vc->c[t->id] = 1;
  sem_init(&t->sem, 0, 0);
  ++g_live;
  return t;
}

void DoUnlock(Thr* t, void* m) {
  Obj& o = (*g_obj)[m];
  if (o.owner != t->id) EndViolation("unlock of a mutex by a thread that does not hold it");
  if (--o.count == 0) {
    Release(t, o);
    t->h = Mix(t->h, 0x11); o.version = t->h;
    o.owner = -1;
  }
}
void TakeLock(Thr* t, void* m) {
  Obj& o = (*g_obj)[m];
  o.owner = t->id; o.count = 1;
  Acquire(t, o);
  Bump(t, kLock, o);
}

void OnCrash(int sig) {
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" :
                  sig == SIGBUS ? "SIGBUS" : sig == SIGALRM ? "time limit (hang)" : "signal";
  if (g_res && g_res->done == 0) {
    if (g_res->msg[0] == 0) {
      strcpy(g_res->msg, "crash: ");
      strcat(g_res->msg, n);
    }
    g_res->done = 2;
  }
  _exit(77);
}

}  // namespace

void Fail(const std::string& msg) { EndViolation(msg); }
long LiveBlocks() { return g_live_blocks; }

}  // namespace mcrt

using namespace mcrt;

// ---------------------------------------------------------------- interposition
extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  Resolve(real_create, "pthread_create");
  if (!Controlled()) return real_create(out, attr, fn, arg);
  {
    Internal in;
    Thr* t = NewThread(t_self);
    t->fn = fn; t->arg = arg; t->op = kStart;
    int r = real_create(&t->real, attr, ThreadMain, t);
    if (r) EndViolation("harness: pthread_create failed");
    *out = t->real;
    PointOp(kCreate, nullptr);
  }
  return 0;
}

int pthread_join(pthread_t th, void** ret) {
  Resolve(real_join, "pthread_join");
  if (!Controlled()) return real_join(th, ret);
  Internal in;
  Thr* target = nullptr;
  for (Thr* t : *g_thr) if (t->id != 0 && pthread_equal(t->real, th) && !t->joined_by_end) target = t;
  if (!target) EndViolation("join of an unknown or already joined thread");
  PointOp(kJoin, target);
  target->joined_by_end = true;
  JoinVC(t_self->vc, target->vc);
  t_self->h = Mix(Mix(t_self->h, 0x10), target->h);
  return real_join(th, ret);
}

int pthread_detach(pthread_t th) {
  Resolve(real_detach, "pthread_detach");
  if (Controlled()) {
    for (Thr* t : *g_thr) if (t->id != 0 && pthread_equal(t->real, th) && !t->joined_by_end) t->detached = true;
    return 0;  // stays joinable for the runtime; the process ends soon anyway
  }
  return real_detach(th);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  Resolve(real_mlock, "pthread_mutex_lock");
  if (!Controlled()) return g_active ? 0 : real_mlock(m);
  Internal in;
  CheckLive(m, "lock", __builtin_return_address(0));
  {
    Obj& o = (*g_obj)[m];
    if (o.owner == t_self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++o.count; return 0; }
  }
  PointOp(kLock, m);
  TakeLock(t_self, m);
  return 0;
}

int pthread_mutex_trylock(pthread_mutex_t* m) {
  Resolve(real_mtrylock, "pthread_mutex_trylock");
  if (!Controlled()) return g_active ? 0 : real_mtrylock(m);
  Internal in;
  CheckLive(m, "trylock", __builtin_return_address(0));
  PointOp(kAtomic, m);
  Obj& o = (*g_obj)[m];
  if (o.owner >= 0) { Bump(t_self, kAtomic, o); return EBUSY; }
  TakeLock(t_self, m);
  return 0;
}

int pthread_mutex_unlock(pthread_mutex_t* m) {
  Resolve(real_munlock, "pthread_mutex_unlock");
  if (!Controlled()) return g_active ? 0 : real_munlock(m);
  Internal in;
  CheckLive(m, "unlock", __builtin_return_address(0));
  DoUnlock(t_self, m);
  return 0;
}

static int CvWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, void* pc) {
  Internal in;
  Thr* t = t_self;
  CheckLive(c, "cond wait", pc);
  // The wait is atomic with the release of the mutex, but a thread that signals without the mutex can come before it.
  PointOp(kAtomic, c);
  CheckLive(c, "cond wait", pc);
  Obj& o0 = (*g_obj)[m];
  if (o0.owner != t->id) EndViolation("condition wait without holding the mutex");
  int saved = o0.count;
  { Obj& cv = (*g_obj)[c]; Bump(t, kCvWait, cv); cv.waiters.push_back(t->id); }
  o0.count = 1;
  DoUnlock(t, m);
  t->signalled = t->timed_out = t->spurious = false;
  PointOp(timed ? kTimedWait : kCvWait, c, m);
  if (timed && !t->signalled) {
    // Chosen while waiting: timed out. Now reacquire.
    Obj& cv = (*g_obj)[c];
    for (size_t i = 0; i < cv.waiters.size(); ++i)
      if (cv.waiters[i] == t->id) { cv.waiters.erase(cv.waiters.begin() + i); break; }
    t->timed_out = true;
    t->h = Mix(t->h, 0x71);
    PointOp(kLock, m);
  }
  TakeLock(t, m);
  (*g_obj)[m].count = saved;
  return t->timed_out ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  Resolve(real_cwait, "pthread_cond_wait");
  if (!Controlled()) return real_cwait(c, m);
  return CvWait(c, m, false, __builtin_return_address(0));
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  Resolve(real_ctimed, "pthread_cond_timedwait");
  if (!Controlled()) return real_ctimed(c, m, ts);
  return CvWait(c, m, true, __builtin_return_address(0));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
  Resolve(real_cclock, "pthread_cond_clockwait");
  if (!Controlled()) return real_cclock(c, m, clk, ts);
  return CvWait(c, m, true, __builtin_return_address(0));
}

static void Wake(Obj& cv, size_t i) {
  Thr* w = (*g_thr)[cv.waiters[i]];
  cv.waiters.erase(cv.waiters.begin() + i);
  w->signalled = true;
  w->op = kCvReady;
  w->h = Mix(Mix(w->h, 0x22), cv.version);
}

int pthread_cond_signal(pthread_cond_t* c) {
  Resolve(real_csignal, "pthread_cond_signal");
  if (!Controlled()) return g_active ? 0 : real_csignal(c);
  Internal in;
  CheckLive(c, "signal", __builtin_return_address(0));
  PointOp(kSignal, c);
  CheckLive(c, "signal", __builtin_return_address(0));
  Obj& cv = (*g_obj)[c];
  Bump(t_self, kSignal, cv);
  if (!cv.waiters.empty()) {
    // Which waiter wakes is up to the environment: a choice point of its own.
    size_t pick = 0, n = cv.waiters.size();
    if (n > 1) {
      int i = g_res->npoints;
      if (i >= g_horizon || i >= kMaxPoints) EndViolation("livelock: no termination within the horizon:" + Describe());
      Point& p = g_res->points[i];
      p.dev = g_dev; p.pruned = 0;
      if (i < (int)g_prefix->size()) {
        pick = (*g_prefix)[i];
        if (pick >= n) { g_res->diverged = 1; EndViolation("replay diverged"); }
        g_prune_stop = false;
      } else {
        if (!g_prune_stop) {
          bool fresh;
          if (Visit(Mix(StateKey(t_self), 0x5167), g_dev, &fresh)) g_prune_stop = true;
          if (fresh) ++g_res->new_states;
        }
        p.pruned = g_prune_stop;
      }
      p.alts = n; p.chosen = pick;
      if (pick) ++g_dev;
      g_res->npoints = i + 1;
    }
    Wake(cv, pick);
  }
  return 0;
}

int pthread_cond_broadcast(pthread_cond_t* c) {
  Resolve(real_cbroadcast, "pthread_cond_broadcast");
  if (!Controlled()) return g_active ? 0 : real_cbroadcast(c);
  Internal in;
  CheckLive(c, "broadcast", __builtin_return_address(0));
  PointOp(kSignal, c);
  CheckLive(c, "broadcast", __builtin_return_address(0));
  Obj& cv = (*g_obj)[c];
  Bump(t_self, kSignal, cv);
  while (!cv.waiters.empty()) Wake(cv, 0);
  return 0;
}

// Reader-writer locks (std::shared_timed_mutex).
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  Resolve(real_rdlock, "pthread_rwlock_rdlock");
  if (!Controlled()) return g_active ? 0 : real_rdlock(l);
  Internal in;
  PointOp(kRdLock, l);
  Obj& o = (*g_obj)[l];
  ++o.count; Acquire(t_self, o);
  Bump(t_self, kRdLock, o);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  Resolve(real_wrlock, "pthread_rwlock_wrlock");
  if (!Controlled()) return g_active ? 0 : real_wrlock(l);
  Internal in;
  PointOp(kWrLock, l);
  Obj& o = (*g_obj)[l];
  o.owner = t_self->id; Acquire(t_self, o); Bump(t_self, kWrLock, o);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  Resolve(real_rwunlock, "pthread_rwlock_unlock");
  if (!Controlled()) return g_active ? 0 : real_rwunlock(l);
  Internal in;
  Obj& o = (*g_obj)[l];
  Release(t_self, o);
  Bump(t_self, kWrLock, o);
  if (o.owner == t_self->id) o.owner = -1; else --o.count;
  return 0;
}

int pthread_once(pthread_once_t* once, void (*fn)()) {
  Resolve(real_once, "pthread_once");
  if (!Controlled()) {
    if (!g_active) return real_once(once, fn);
    return real_once(once, fn);
  }
  bool run = false;
  {
    Internal in;
    Obj* o = &(*g_obj)[once];
    if (*(volatile int*)once == 2 && o->state == 0) return 0;  // done before the execution began
    if (o->state != 2) PointOp(kOnceWait, once);
    o = &(*g_obj)[once];
    if (o->state != 2) { o->owner = t_self->id; run = true; }
    else { Acquire(t_self, *o); t_self->h = Mix(Mix(t_self->h, kOnceWait), o->version); }
  }
  if (run) {
    struct Guard {
      pthread_once_t* once; bool ok = false;
      ~Guard() {
        Internal in;
        Obj& o = (*g_obj)[once];
        o.owner = -1;
        o.state = ok ? 2 : 0;
        Release(t_self, o);
        Bump(t_self, kOnceWait, o);
      }
    } guard{once};
    fn();
    guard.ok = true;
  }
  return 0;
}

int __cxa_guard_acquire(uint64_t* g) {
  char* b = (char*)g;
  if (!Controlled()) {
    if (b[0]) return 0;
    return 1;  // single-threaded part of the program
  }
  Internal in;
  if (!b[0]) PointOp(kGuardWait, g);
  Obj& o = (*g_obj)[g];
  if (b[0]) { Acquire(t_self, o); t_self->h = Mix(Mix(t_self->h, kGuardWait), o.version); return 0; }
  o.owner = t_self->id;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  ((char*)g)[0] = 1;
  if (!Controlled()) return;
  Internal in;
  Obj& o = (*g_obj)[g];
  o.owner = -1;
  Release(t_self, o);
  Bump(t_self, kGuardWait, o);
}
void __cxa_guard_abort(uint64_t* g) {
  if (!Controlled()) return;
  Internal in;
  Obj& o = (*g_obj)[g];
  o.owner = -1;
}

static void Yield() {
  Internal in;
  t_self->yielded = true;
  t_self->h = Mix(t_self->h, kYield);
  PointOp(kYield, nullptr);
}
int sched_yield() {
  Resolve(real_yield, "sched_yield");
  if (!Controlled()) return real_yield();
  Yield();
  return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  Resolve(real_nanosleep, "nanosleep");
  if (!Controlled()) return real_nanosleep(a, b);
  Yield();
  return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) {
  Resolve(real_clock_nanosleep, "clock_nanosleep");
  if (!Controlled()) return real_clock_nanosleep(c, f, a, b);
  Yield();
  return 0;
}
int usleep(useconds_t u) {
  Resolve(real_usleep, "usleep");
  if (!Controlled()) return real_usleep(u);
  Yield();
  return 0;
}

// Futexes are used by std::promise/std::future through libstdc++.
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && Controlled()) {
    Internal in;
    int op = a[1] & FUTEX_CMD_MASK;
    void* addr = (void*)a[0];
    CheckLive(addr, "futex", __builtin_return_address(0));
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (*(volatile int*)addr != (int)a[2]) { errno = EAGAIN; return -1; }
      Thr* t = t_self;
      t->signalled = false;
      t->futex_expect = (int)a[2];
      PointOp(a[3] ? kTimedFutex : kFutexWait, addr);
      if (a[3] && !FutexReady(t)) {
        t->h = Mix(t->h, 0x71);
        errno = ETIMEDOUT;
        return -1;
      }
      Obj& o = (*g_obj)[addr];
      Acquire(t, o);
      Bump(t, kFutexWait, o);
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      PointOp(kSignal, addr);
      Obj& o = (*g_obj)[addr];
      Bump(t_self, kSignal, o);
      int count = 0;
      for (Thr* t : *g_thr)
        if (!t->finished && (t->op == kFutexWait || t->op == kTimedFutex) && t->obj == addr && count < a[2]) { t->signalled = true; ++count; }
      return count;
    }
    EndViolation("harness: unsupported futex operation");
  }
  long ret;
  register long r10 __asm__("r10") = a[3];
  register long r8 __asm__("r8") = a[4];
  register long r9 __asm__("r9") = a[5];
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) { errno = -ret; return -1; }
  return ret;
}

// ---------------------------------------------------------------- instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
#define RW(n)                                                                                        \
  void __tsan_read##n(void* a) { AccessRange((uintptr_t)a, n, false, false, PC); }                    \
  void __tsan_write##n(void* a) { AccessRange((uintptr_t)a, n, true, false, PC); }                    \
  void __tsan_unaligned_read##n(void* a) { AccessRange((uintptr_t)a, n, false, false, PC); }          \
  void __tsan_unaligned_write##n(void* a) { AccessRange((uintptr_t)a, n, true, false, PC); }          \
  void __tsan_read_write##n(void* a) { AccessRange((uintptr_t)a, n, true, false, PC); }               \
  void __tsan_unaligned_read_write##n(void* a) { AccessRange((uintptr_t)a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { AccessRange((uintptr_t)a, n, false, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { AccessRange((uintptr_t)a, n, true, false, PC); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) AccessRange((uintptr_t)p, 8, true, false, PC); else AccessRange((uintptr_t)p, 8, false, false, PC);
}
void __tsan_vptr_read(void** p) { AccessRange((uintptr_t)p, 8, false, false, PC); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
  AccessRange((uintptr_t)s, n, false, false, PC); AccessRange((uintptr_t)d, n, true, false, PC);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
  AccessRange((uintptr_t)s, n, false, false, PC); AccessRange((uintptr_t)d, n, true, false, PC);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n) {
  AccessRange((uintptr_t)d, n, true, false, PC);
  return memset(d, c, n);
}

}  // extern "C"

static void AtomicOp(void* a, size_t n, int mo, bool load, bool store, void* pc) {
  if (!Controlled()) return;
  Internal in;
  CheckLive(a, "atomic access", pc);
  PointOp(kAtomic, a);
  CheckLive(a, "atomic access", pc);
  Thr* t = t_self;
  Obj& o = (*g_obj)[a];
  --t_internal;
  AccessRange((uintptr_t)a, n, store, true, pc);
  ++t_internal;
  if (load && (mo == 1 || mo == 2 || mo == 4 || mo == 5)) Acquire(t, o);
  if (store) {
    if (mo == 3 || mo == 4 || mo == 5) Release(t, o);
    else if (!load && o.vc) memset(o.vc, 0, sizeof(VC));
    Bump(t, kAtomic, o);
  } else {
    t->h = Mix(Mix(t->h, kAtomic), o.version);
  }
}

extern "C" {
#define ATOMIC(bits, T)                                                                              \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                                         \
    AtomicOp((void*)a, sizeof(T), mo, true, false, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }  \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                                      \
    AtomicOp((void*)a, sizeof(T), mo, false, true, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }     \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                                      \
    AtomicOp((void*)a, sizeof(T), mo, true, true, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) {                                     \
    AtomicOp((void*)a, sizeof(T), mo, true, true, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) {                                     \
    AtomicOp((void*)a, sizeof(T), mo, true, true, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) {                                     \
    AtomicOp((void*)a, sizeof(T), mo, true, true, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) {                                      \
    AtomicOp((void*)a, sizeof(T), mo, true, true, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) {                                     \
    AtomicOp((void*)a, sizeof(T), mo, true, true, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) {          \
    AtomicOp((void*)a, sizeof(T), mo, true, true, PC);                                                \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }         \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) {            \
    AtomicOp((void*)a, sizeof(T), mo, true, true, PC);                                                \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }         \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) {                \
    AtomicOp((void*)a, sizeof(T), mo, true, true, PC);                                                \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
static char g_fence;
void __tsan_atomic_thread_fence(int mo) { AtomicOp(&g_fence, 1, mo, true, true, PC); }
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

// ---------------------------------------------------------------- heap
static void* Alloc(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  if (Controlled()) { Internal in; (*g_sizes)[p] = n ? n : 1; ++g_live_blocks; }
  return p;
}
static void Dealloc(void* p, void* pc) {
  if (!p) return;
  if (!g_active) { free(p); return; }
  if (!Controlled()) return;  // leak during the execution: the process ends soon
  auto it = g_sizes->find(p);
  size_t n = it != g_sizes->end() ? it->second : 0;
  if (n == 0) {
    // Allocated before the execution or by uninstrumented code outside of it.
    return;
  }
  AccessRange((uintptr_t)p, n, true, false, pc, true);
  Internal in;
  if (IsFreed((uintptr_t)p, 1)) EndViolation("double free by T" + std::to_string(t_self->id) + " " + Where(pc));
  --g_live_blocks;
  (*g_freed)[(uintptr_t)p] = Range{(uintptr_t)p + n, t_self->id, 0};
  for (uintptr_t k = (uintptr_t)p >> 3; k <= ((uintptr_t)p + n - 1) >> 3; ++k) FindGran(k + 1)->freed = 1;
}
void* operator new(size_t n) { return Alloc(n); }
void* operator new[](size_t n) { return Alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void operator delete(void* p) noexcept { Dealloc(p, PC); }
void operator delete[](void* p) noexcept { Dealloc(p, PC); }
void operator delete(void* p, size_t) noexcept { Dealloc(p, PC); }
void operator delete[](void* p, size_t) noexcept { Dealloc(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Dealloc(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Dealloc(p, PC); }

// ---------------------------------------------------------------- explorer
namespace mcrt {
namespace {

// Runs one execution in a child process.  Returns false if the child reported a violation.
void ExecChild(const Scenario& s, const std::vector<uint8_t>& prefix) {
  g_thr = new std::vector<Thr*>();
  g_obj = new std::unordered_map<void*, Obj>();
  g_freed = new std::map<uintptr_t, Range>();
  g_sizes = new std::unordered_map<void*, size_t>();
  g_prefix = new std::vector<uint8_t>(prefix);
  g_spurious_left = s.spurious;
  g_horizon = s.horizon;
  g_rotate = s.rotate;
  g_dev = 0;
  g_prune_stop = false;
  g_live = 0;
  g_shadow = (Gran*)mmap(nullptr, kShadow * sizeof(Gran), PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  stack_t ss;
  ss.ss_sp = malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = OnCrash;
  sa.sa_flags = SA_ONSTACK;
  for (int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaction(sig, &sa, nullptr);
  alarm(60);
  t_internal = 1;
  Thr* main = NewThread(nullptr);
  main->real = pthread_self();
  t_self = main;
  g_cur = main;
  g_active = true;
  t_internal = 0;
  std::string out;
  try {
    out = s.run();
  } catch (const std::exception& e) {
    t_internal = 1;
    EndViolation(std::string("uncaught exception: ") + e.what());
  }
  t_internal = 1;
  // Let every remaining thread finish; threads blocked forever are reported as a deadlock.
  PointOp(kEnd, nullptr);
  snprintf(g_res->outcome, kMsg, "%s", out.c_str());
  uint64_t h = 7;
  for (char c : out) h = Mix(h, (unsigned char)c);
  g_res->outcome_hash = h;
  g_res->threads = g_thr->size();
  g_res->done = 1;
  _exit(0);
}

void RunOne(const Scenario& s, const std::vector<uint8_t>& prefix) {
  g_res->npoints = 0; g_res->done = 0; g_res->diverged = 0; g_res->steps = 0; g_res->new_states = 0;
  g_res->accesses = 0; g_res->switches = 0; g_res->threads = 0;
  g_res->msg[0] = 0; g_res->outcome[0] = 0;
  pid_t pid = fork();
  if (pid == 0) ExecChild(s, prefix);
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (g_res->done == 0) {
    snprintf(g_res->msg, kMsg, "crash: execution ended with status %d%s%s", st, g_res->msg[0] ? ": " : "", "");
    g_res->done = 2;
  }
}

void ReportViolation(const std::string& msg) {
  LockSh();
  if (!g_sh->violations) {
    g_sh->violations = 1;
    snprintf(g_sh->msg, kMsg, "%s", msg.c_str());
    g_sh->vlen = g_res->npoints;
    for (int i = 0; i < g_res->npoints; ++i) g_sh->vprefix[i] = g_res->points[i].chosen;
  }
  g_sh->stop = 1;
  UnlockSh();
}

typedef std::vector<uint8_t> Prefix;

bool PopShared(Prefix* p) {
  // caller holds the lock
  if (g_sh->nqueue == 0) return false;
  uint8_t* e = g_queue + (size_t)(--g_sh->nqueue) * (kMaxPrefix + 8);
  int len = *(int*)e;
  p->assign(e + 8, e + 8 + len);
  return true;
}
void PushShared(const Prefix& p) {
  uint8_t* e = g_queue + (size_t)(g_sh->nqueue++) * (kMaxPrefix + 8);
  *(int*)e = p.size();
  memcpy(e + 8, p.data(), p.size());
}

void Worker(const Scenario& s, int nworkers, double deadline) {
  if (s.setup) s.setup();
  g_res = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<Prefix> local;
  bool idle = false;
  while (!g_sh->stop) {
    Prefix p;
    if (!local.empty()) {
      p = std::move(local.back());
      local.pop_back();
    } else {
      LockSh();
      if (PopShared(&p)) {
        if (idle) { --g_sh->idle; idle = false; }
        UnlockSh();
      } else {
        if (!idle) { ++g_sh->idle; idle = true; }
        bool end = g_sh->idle == nworkers;
        UnlockSh();
        if (end) return;
        struct timespec ts = {0, 200000};
        Resolve(real_nanosleep, "nanosleep");
        real_nanosleep(&ts, nullptr);
        continue;
      }
    }
    RunOne(s, p);
    if (g_res->done == 2) { ReportViolation(g_res->msg); return; }
    LockSh();
    ++g_sh->executions;
    g_sh->steps += g_res->steps;
    g_sh->states += g_res->new_states;
    g_sh->accesses += g_res->accesses;
    g_sh->switches += g_res->switches;
    if ((uint64_t)g_res->npoints > g_sh->max_points) g_sh->max_points = g_res->npoints;
    if (g_res->threads > g_sh->max_threads) g_sh->max_threads = g_res->threads;
    bool known = false;
    for (int i = 0; i < g_sh->noutcomes; ++i) if (g_sh->outcomes[i] == g_res->outcome_hash) known = true;
    if (!known && g_sh->noutcomes < 1024) g_sh->outcomes[g_sh->noutcomes++] = g_res->outcome_hash;
    if (!g_sh->have_outcome) { g_sh->have_outcome = 1; memcpy(g_sh->first_outcome, g_res->outcome, kMsg); }
    bool differs = s.same_outcome && strcmp(g_sh->first_outcome, g_res->outcome) != 0;
    std::string first = g_sh->first_outcome;
    UnlockSh();
    if (differs) {
      ReportViolation("result depends on the schedule: got\n" + std::string(g_res->outcome) + "\ninstead of\n" + first);
      return;
    }
    // Alternatives.
    for (int i = p.size(); i < g_res->npoints; ++i) {
      const Point& q = g_res->points[i];
      if (q.pruned) break;
      if (g_bound >= 0 && q.dev + 1 > g_bound) continue;
      for (int a = q.alts - 1; a >= 1; --a) {
        Prefix np(i + 1);
        for (int k = 0; k < i; ++k) np[k] = g_res->points[k].chosen;
        np[i] = a;
        local.push_back(std::move(np));
      }
    }
    if (g_sh->nqueue < nworkers && local.size() > 1) {
      LockSh();
      size_t give = 0;
      while (g_sh->nqueue < kQueue / 2 && give + 1 < local.size() && give < 16) PushShared(local[give++]);
      UnlockSh();
      local.erase(local.begin(), local.begin() + give);
    }
    struct timespec now;
    clock_gettime(CLOCK_MONOTONIC, &now);
    if (deadline > 0 && now.tv_sec + now.tv_nsec * 1e-9 > deadline) {
      LockSh(); g_sh->capped = 1; g_sh->stop = 1; UnlockSh();
    }
  }
}

std::string JsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

}  // namespace

int Main(int argc, char** argv, const std::vector<Scenario>& scenarios) {
  std::string tier = "quick", only, replay;
  int workers = 8, bound_override = -2;
  double cap = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--tier") tier = argv[++i];
    else if (a == "--scenario") only = argv[++i];
    else if (a == "--replay") replay = argv[++i];
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--bound") bound_override = atoi(argv[++i]);
    else if (a == "--cap") cap = atof(argv[++i]);
  }
  // Resolve everything before controlled execution.
  Resolve(real_create, "pthread_create"); Resolve(real_join, "pthread_join"); Resolve(real_detach, "pthread_detach");
  Resolve(real_mlock, "pthread_mutex_lock"); Resolve(real_munlock, "pthread_mutex_unlock");
  Resolve(real_mtrylock, "pthread_mutex_trylock"); Resolve(real_cwait, "pthread_cond_wait");
  Resolve(real_csignal, "pthread_cond_signal"); Resolve(real_cbroadcast, "pthread_cond_broadcast");
  Resolve(real_once, "pthread_once"); Resolve(real_yield, "sched_yield"); Resolve(real_nanosleep, "nanosleep");
  g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_queue = (uint8_t*)mmap(nullptr, (size_t)kQueue * (kMaxPrefix + 8), PROT_READ | PROT_WRITE,
                           MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  int rc = 0;
  for (const auto& s : scenarios) {
    if (!only.empty() && s.name != only) continue;
    g_bound = tier == "thorough" ? s.thorough_bound : s.quick_bound;
    if (bound_override != -2) g_bound = bound_override;
    memset(g_sh, 0, sizeof *g_sh);
    g_visited = (uint64_t*)mmap(nullptr, kVisited * 8, PROT_READ | PROT_WRITE,
                                MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (!replay.empty()) {
      Prefix p;
      FILE* f = fopen(replay.c_str(), "r");
      int v;
      while (f && fscanf(f, "%d", &v) == 1) p.push_back(v);
      if (f) fclose(f);
      fflush(stdout);
      if (s.setup) s.setup();
      g_res = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      RunOne(s, p);
      printf("{\"scenario\":\"%s\",\"replay\":1,\"violation\":%d,\"diverged\":%d,\"msg\":\"%s\",\"outcome\":\"%s\"}\n",
             s.name.c_str(), g_res->done == 2, g_res->diverged, JsonEscape(g_res->msg).c_str(),
             JsonEscape(g_res->outcome).c_str());
      return g_res->done == 2 ? 1 : 0;
    }
    struct timespec now;
    clock_gettime(CLOCK_MONOTONIC, &now);
    double t0 = now.tv_sec + now.tv_nsec * 1e-9;
    PushShared(Prefix());
    fflush(stdout);
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; ++w) {
      pid_t pid = fork();
      if (pid == 0) { Worker(s, workers, cap > 0 ? t0 + cap : 0); _exit(0); }
      pids.push_back(pid);
    }
    bool died = false;
    for (pid_t p : pids) {
      int st;
      while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { died = true; g_sh->stop = 1; }
    }
    clock_gettime(CLOCK_MONOTONIC, &now);
    std::string sched;
    for (int i = 0; i < g_sh->vlen; ++i) sched += (i ? " " : "") + std::to_string(g_sh->vprefix[i]);
    // Trailing default choices carry no information.
    while (g_sh->violations && sched.size() > 2 && sched.substr(sched.size() - 2) == " 0") sched.resize(sched.size() - 2);
    printf("{\"scenario\":\"%s\",\"bound\":%d,\"executions\":%lu,\"states\":%lu,\"transitions\":%lu,\"switches\":%lu,"
           "\"accesses\":%lu,\"max_points\":%lu,\"threads\":%lu,\"outcomes\":%d,\"capped\":%lu,\"worker_died\":%d,"
           "\"violation\":%d,\"wall\":%.2f,\"msg\":\"%s\",\"schedule\":\"%s\",\"outcome\":\"%.1500s\"}\n",
           s.name.c_str(), g_bound, g_sh->executions, g_sh->states, g_sh->steps, g_sh->switches, g_sh->accesses,
           g_sh->max_points, g_sh->max_threads, g_sh->noutcomes, g_sh->capped, died ? 1 : 0, g_sh->violations,
           now.tv_sec + now.tv_nsec * 1e-9 - t0, JsonEscape(g_sh->msg).c_str(), sched.c_str(),
           JsonEscape(g_sh->first_outcome).c_str());
    fflush(stdout);
    if (g_sh->violations) rc = 1;
    if (died) rc = 2;
    munmap(g_visited, kVisited * 8);
    if (rc) return rc;
  }
  return rc;
}

}  // namespace mcrt
