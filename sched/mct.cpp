#include "mct.hpp"
#include <map>
#include <set>
#include <vector>
#include <string>
#include <atomic>
#include <new>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

extern "C" void *__real_malloc(size_t);
extern "C" void __real_free(void *);
extern "C" int __real_posix_memalign(void **, size_t, size_t);
extern "C" void *__real_memcpy(void *, void const *, size_t);
extern "C" void *__real_memmove(void *, void const *, size_t);
extern "C" void *__real_memset(void *, int, size_t);

namespace
{
int const MAXT = 8;
struct VC
{
  unsigned c[MAXT];
  VC() { for (int i = 0; i < MAXT; ++i) c[i] = 0; }
  void join(VC const &o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Shared
{
  int nprefix, prefix[20000];
  int nchoice; struct { short choice, alts; char cost; } ch[20000];
  long steps, accesses, sync; unsigned long long outcome;
  int finished; size_t nfail; char fails[8000];
};
Shared *sh;
bool g_thorough = false, g_replay = false;

enum State { RUN, BLOCKED, DONE };
struct Thread
{
  int id; State st; sem_t sem; pthread_t pt; std::function<void()> f; std::function<bool()> ready;
  VC vc, fence_acq, fence_rel; bool has_rel; char const *where;
  Thread() : st(RUN), has_rel(false), where("") {}
};
Thread *T[MAXT]; int NT = 0;
__thread int me = -1;
__thread int rt = 0;      // inside the runtime
int g_cur = 0; bool active = false;   // active: inside an execution
struct RT { RT() { ++rt; } ~RT() { --rt; } };

[[noreturn]] void done_process() { sh->finished = 1; _exit(0); }
void vfail(char const *key, char const *fmt, va_list ap)
{
  char b[700]; int n = snprintf(b, sizeof b, "%s\t", key);
  n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap); if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n'; b[n] = 0;
  if (sh->nfail + n < sizeof sh->fails) { strcpy(sh->fails + sh->nfail, b); sh->nfail += n; }
}
void ifail(char const *key, char const *fmt, ...) { va_list ap; va_start(ap, fmt); vfail(key, fmt, ap); va_end(ap); }

// ---- scheduling -----------------------------------------------------------------
bool enabled(Thread *t)
{
  if (t->st == RUN) return true;
  if (t->st == BLOCKED && t->ready && t->ready()) return true;
  return false;
}
// choose the thread that runs next; the caller continues when it is chosen
void schedule()
{
  if (!active) return;
  Thread *t = T[me];
  ++sh->steps;
  int alt[MAXT], n = 0; bool self_on = enabled(t);
  if (self_on) alt[n++] = me;
  for (int k = 0; k < NT; ++k) if (k != me && enabled(T[k])) alt[n++] = k;
  if (!n)
  {
    bool all = true; for (int k = 0; k < NT; ++k) if (T[k]->st != DONE) all = false;
    if (!all)
    {
      std::string s; for (int k = 0; k < NT; ++k) if (T[k]->st != DONE) s += " thread " + std::to_string(k) + " (" + T[k]->where + ")";
      ifail("deadlock", "all threads wait:%s", s.c_str());
    }
    done_process();
  }
  int pick = 0;
  if (n > 1)
  {
    if (sh->nchoice >= 20000) { ifail("too long", "more than 20000 choices in one execution"); done_process(); }
    int i = sh->nchoice++;
    pick = i < sh->nprefix ? sh->prefix[i] : 0;
    if (pick >= n) { ifail("replay", "choice %d: %d of %d", i, pick, n); done_process(); }
    sh->ch[i].choice = pick; sh->ch[i].alts = n; sh->ch[i].cost = self_on;
    if (g_replay) fprintf(stderr, "[choice %d: thread %d at %s -> thread %d]\n", i, me, t->where, alt[pick]);
  }
  int next = alt[pick];
  if (T[next]->st == BLOCKED) T[next]->st = RUN;
  if (next == me) return;
  g_cur = next;
  sem_post(&T[next]->sem);
  if (t->st == DONE) return;
  while (sem_wait(&t->sem) && errno == EINTR) ;
}
void point_(char const *w) { if (active && me >= 0) { T[me]->where = w; schedule(); } }
void block_until(char const *w, std::function<bool()> c)
{
  T[me]->where = w;
  if (c()) return;
  T[me]->st = BLOCKED; T[me]->ready = c;
  schedule();
  T[me]->ready = nullptr;
}
void tick() { ++T[me]->vc.c[me]; }

// ---- memory ---------------------------------------------------------------------
struct Access { int tid; unsigned clk; unsigned char mask; bool atomic; };
struct Cell { std::vector<Access> w, r; };
std::map<uintptr_t, Cell> *shadow;
struct Block { size_t n; bool freed; int tid; };
std::map<uintptr_t, Block> *blocks;
std::map<uintptr_t, VC> *locs;           // release clocks of atomics and guards
struct Mutex { int owner; int readers; int depth; VC vc; Mutex() : owner(-1), readers(0), depth(0) {} };
std::map<uintptr_t, Mutex> *mutexes;
long n_live = 0; bool tracking = false; int n_races = 0;
std::set<std::string> *reported;

std::string place(uintptr_t a)
{
  auto i = blocks->upper_bound(a);
  char b[80];
  if (i != blocks->begin()) { --i; if (a < i->first + std::max<size_t>(i->second.n, 1)) { snprintf(b, sizeof b, "offset %zu of an allocation of %zu bytes", (size_t)(a - i->first), i->second.n); return b; } }
  return "a static or local variable";
}
bool hb(Access const &x) { return x.tid == me || T[me]->vc.c[x.tid] >= x.clk; }
void report(char const *key, uintptr_t a, char const *what, int other)
{
  std::string p = place(a);
  std::string s = std::string(key) + what + p;
  if (!reported->insert(s).second || ++n_races > 6) return;
  ifail(key, "%s, %s (threads %d and %d)", what, p.c_str(), other, me);
}
void access8(uintptr_t cell, unsigned char mask, bool write, bool atomic)
{
  Cell &c = (*shadow)[cell];
  Thread *t = T[me];
  for (auto &x : c.w) if ((x.mask & mask) && !(x.atomic && atomic) && !hb(x)) report("data race", cell, write ? "two unordered writes" : "a read and a write without order", x.tid);
  if (write) for (auto &x : c.r) if ((x.mask & mask) && !(x.atomic && atomic) && !hb(x)) report("data race", cell, "a read and a write without order", x.tid);
  auto &v = write ? c.w : c.r;
  for (size_t i = 0; i < v.size(); ) if (v[i].tid == me && v[i].mask == mask && v[i].atomic == atomic) { v[i] = v.back(); v.pop_back(); } else ++i;
  v.push_back(Access{me, t->vc.c[me], mask, atomic});
}
void access(void const *p, size_t n, bool write, bool atomic = false)
{
  if (!active || me < 0 || rt || !n) return;
  RT g;
  uintptr_t a = (uintptr_t)p;
  ++sh->accesses;
  if (!blocks->empty())
  {
    auto i = blocks->upper_bound(a);
    if (i != blocks->begin()) { --i; if (i->second.freed && a < i->first + i->second.n) report("use after free", a, write ? "a write to released memory" : "a read of released memory", i->second.tid); }
  }
  if (!tracking) return;
  for (uintptr_t c = a & ~7ul; c < a + n; c += 8)
  {
    unsigned char m = 0; for (int k = 0; k < 8; ++k) if (c + k >= a && c + k < a + n) m |= 1 << k;
    access8(c, m, write, atomic);
  }
}
void on_alloc(void *p, size_t n)
{
  if (!active || me < 0 || rt || !p) return;
  RT g; (*blocks)[(uintptr_t)p] = Block{n, false, me}; ++n_live;
}
// true: ours, and stays allocated until the process ends
bool on_free(void *p)
{
  if (!active || !blocks || !p) return false;
  RT g;
  auto i = blocks->find((uintptr_t)p);
  if (i == blocks->end()) return false;
  if (i->second.freed) { ifail("double free", "an allocation of %zu bytes is released twice (threads %d and %d)", i->second.n, i->second.tid, me); return true; }
  if (tracking && me >= 0)
    for (auto c = shadow->lower_bound((uintptr_t)p & ~7ul); c != shadow->end() && c->first < (uintptr_t)p + i->second.n; ++c)
    {
      for (auto &x : c->second.w) if (!hb(x)) { report("data race", c->first, "releasing memory and a write without order", x.tid); break; }
      for (auto &x : c->second.r) if (!hb(x)) { report("data race", c->first, "releasing memory and a read without order", x.tid); break; }
    }
  i->second.freed = true; i->second.tid = me; --n_live;
  if (i->second.n < 1u << 16) __real_memset(p, 0xdb, i->second.n);
  return true;
}
bool acq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
bool rel(int o) { return o == 3 || o == 4 || o == 5; }
void at_load(void *a, int o)
{
  if (!active || me < 0 || rt) return;
  RT g; Thread *t = T[me]; VC &l = (*locs)[(uintptr_t)a];
  ++sh->sync;
  if (acq(o)) t->vc.join(l); else t->fence_acq.join(l);
}
void at_store(void *a, int o, bool rmw)
{
  if (!active || me < 0 || rt) return;
  RT g; Thread *t = T[me]; VC &l = (*locs)[(uintptr_t)a];
  ++sh->sync;
  if (!rmw) l = VC();
  if (rel(o)) l.join(t->vc); else if (t->has_rel) l.join(t->fence_rel);
  tick();
}
void at_point(void *a, size_t n, bool write)
{
  if (!active || me < 0 || rt) return;
  { RT g; point_("atomic operation"); }
  access(a, n, write, true);
}
void lock_(uintptr_t a, bool write, bool recursive = true)
{
  { RT g; point_("lock"); }
  RT g; Mutex &m = (*mutexes)[a];
  if (write && m.owner == me && !recursive) { ifail("deadlock", "thread %d locks a mutex it holds", me); done_process(); }
  block_until("waiting for a lock", [&m, write]() { return m.owner < 0 && (!write || !m.readers); });
  if (write) m.owner = me; else ++m.readers;
  T[me]->vc.join(m.vc); ++sh->sync;
}
void unlock_(uintptr_t a)
{
  RT g; Mutex &m = (*mutexes)[a];
  if (m.owner == me) m.owner = -1; else if (m.readers) --m.readers; else ifail("unlock", "thread %d unlocks a mutex it does not hold", me);
  m.vc.join(T[me]->vc); tick(); ++sh->sync;
  point_("unlock");
}
} // namespace

// ---- allocation -----------------------------------------------------------------
static bool in_run() { return active && me >= 0 && !rt; }
static void *get(size_t n, size_t al)
{
  void *p = 0;
  if (al > 16) { if (__real_posix_memalign(&p, al, n ? n : 1)) p = 0; } else p = __real_malloc(n ? n : 1);
  if (p && in_run()) { if (n < 1u << 16) __real_memset(p, 0xa5, n); on_alloc(p, n); }
  return p;
}
static void put(void *p) { if (!p) return; if (!on_free(p)) __real_free(p); }
extern "C"
{
void *__wrap_malloc(size_t n) { return get(n, 0); }
void __wrap_free(void *p) { put(p); }
void *__wrap_calloc(size_t a, size_t b) { void *p = get(a * b, 0); if (p) __real_memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *q, size_t n)
{
  void *p = get(n, 0); if (!q || !p) return p;
  size_t old = n; { RT g; auto i = blocks ? blocks->find((uintptr_t)q) : decltype(blocks->end())(); if (blocks && i != blocks->end()) old = i->second.n; }
  __real_memcpy(p, q, old < n ? old : n); put(q); return p;
}
int __wrap_posix_memalign(void **r, size_t al, size_t n) { *r = get(n, al < 32 ? 32 : al); return *r ? 0 : ENOMEM; }
void *__wrap_aligned_alloc(size_t al, size_t n) { return get(n, al < 32 ? 32 : al); }
void *__wrap_memcpy(void *d, void const *s, size_t n) { access(s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, void const *s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, true); return __real_memset(d, c, n); }
}
void *operator new(size_t n) { void *p = get(n, 0); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = get(n, 0); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return get(n, 0); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return get(n, 0); }
void *operator new(size_t n, std::align_val_t a) { return get(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return get(n, (size_t)a); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { put(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { put(p); }

// ---- locks and guards -------------------------------------------------------------
extern "C"
{
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!in_run()) return __real_pthread_mutex_lock(m); bool r = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; if (r) { RT g; Mutex &x = (*mutexes)[(uintptr_t)m]; if (x.owner == me) { ++x.depth; return 0; } } lock_((uintptr_t)m, true, false); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!in_run()) return __real_pthread_mutex_unlock(m); { RT g; Mutex &x = (*mutexes)[(uintptr_t)m]; if (x.owner == me && x.depth) { --x.depth; return 0; } } unlock_((uintptr_t)m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
  if (!in_run()) return __real_pthread_mutex_trylock(m);
  { RT g; point_("trylock"); }
  RT g; Mutex &x = (*mutexes)[(uintptr_t)m];
  if (x.owner >= 0 || x.readers) return EBUSY;
  x.owner = me; T[me]->vc.join(x.vc); return 0;
}
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *); int __real_pthread_rwlock_rdlock(pthread_rwlock_t *); int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (!in_run()) return __real_pthread_rwlock_wrlock(m); lock_((uintptr_t)m, true, false); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (!in_run()) return __real_pthread_rwlock_rdlock(m); lock_((uintptr_t)m, false); return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { if (!in_run()) return __real_pthread_rwlock_unlock(m); unlock_((uintptr_t)m); return 0; }

int __real___cxa_guard_acquire(uint64_t *); void __real___cxa_guard_release(uint64_t *); void __real___cxa_guard_abort(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t *g)
{
  if (!in_run()) return __real___cxa_guard_acquire(g);
  unsigned char *b = (unsigned char *)g;
  { RT r; point_("initialisation of a local static"); }
  RT r;
  block_until("waiting for the initialisation of a local static", [b]() { return b[0] || !b[1]; });
  if (b[0]) { T[me]->vc.join((*locs)[(uintptr_t)g]); return 0; }
  b[1] = 1; return 1;
}
void __wrap___cxa_guard_release(uint64_t *g)
{
  if (!in_run()) { __real___cxa_guard_release(g); return; }
  unsigned char *b = (unsigned char *)g;
  RT r; (*locs)[(uintptr_t)g].join(T[me]->vc); tick(); b[1] = 0; b[0] = 1;
  point_("initialised a local static");
}
void __wrap___cxa_guard_abort(uint64_t *g) { if (!in_run()) { __real___cxa_guard_abort(g); return; } ((unsigned char *)g)[1] = 0; }
int __real_pthread_once(pthread_once_t *, void (*)());
int __wrap_pthread_once(pthread_once_t *o, void (*f)())
{
  if (!in_run()) return __real_pthread_once(o, f);
  { RT r; point_("once"); }
  VC *l; { RT r; l = &(*locs)[(uintptr_t)o]; block_until("waiting for once", [o]() { return *o != 1; }); T[me]->vc.join(*l); }
  if (*o == 2) return 0;
  *o = 1; f(); { RT r; *o = 2; (*locs)[(uintptr_t)o].join(T[me]->vc); tick(); point_("once done"); }
  return 0;
}

// ---- what the compiler calls --------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void *p) { access(p, N, false); } void __tsan_write##N(void *p) { access(p, N, true); } \
void __tsan_unaligned_read##N(void *p) { access(p, N, false); } void __tsan_unaligned_write##N(void *p) { access(p, N, true); } \
void __tsan_volatile_read##N(void *p) { access(p, N, false); } void __tsan_volatile_write##N(void *p) { access(p, N, true); } \
void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false); } void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void *v) { access(p, sizeof *p, *p != v); }
void __tsan_vptr_read(void **p) { access(p, sizeof *p, false); }
#define RMW(N, TT, OP, F) TT __tsan_atomic##N##_##OP(volatile TT *a, TT v, int o) \
{ at_point((void *)a, sizeof(TT), true); at_load((void *)a, o); at_store((void *)a, o, true); return F; }
#define AT(N, TT) \
TT __tsan_atomic##N##_load(const volatile TT *a, int o) { at_point((void *)a, sizeof(TT), false); at_load((void *)a, o); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile TT *a, TT v, int o) { at_point((void *)a, sizeof(TT), true); at_store((void *)a, o, false); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
RMW(N, TT, exchange, __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST)) \
RMW(N, TT, fetch_add, __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST)) RMW(N, TT, fetch_sub, __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST)) \
RMW(N, TT, fetch_and, __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST)) RMW(N, TT, fetch_or, __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST)) \
RMW(N, TT, fetch_xor, __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST)) RMW(N, TT, fetch_nand, __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST)) \
int __tsan_atomic##N##_compare_exchange_strong(volatile TT *a, TT *c, TT v, int o, int fo) \
{ at_point((void *)a, sizeof(TT), true); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_load((void *)a, r ? o : fo); if (r) at_store((void *)a, o, true); return r; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile TT *a, TT *c, TT v, int o, int fo) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, o, fo); } \
TT __tsan_atomic##N##_compare_exchange_val(volatile TT *a, TT c, TT v, int o, int fo) { __tsan_atomic##N##_compare_exchange_strong(a, &c, v, o, fo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o)
{
  if (!in_run()) return;
  RT g; Thread *t = T[me]; ++sh->sync;
  if (acq(o)) t->vc.join(t->fence_acq);
  if (rel(o)) { t->fence_rel = t->vc; t->has_rel = true; tick(); }
}
void __tsan_atomic_signal_fence(int) {}
}

// ---- interface ----------------------------------------------------------------------
namespace mct
{
int self() { return me; }
bool thorough() { return g_thorough; }
long live() { return n_live; }
void outcome(unsigned long long h) { sh->outcome = sh->outcome * 1099511628211ull + h; }
void fail(char const *key, char const *fmt, ...) { RT g; va_list ap; va_start(ap, fmt); vfail(key, fmt, ap); va_end(ap); }
void point(char const *w) { RT g; point_(w); }
void wait_until(std::function<bool()> c) { RT g; point_("condition"); block_until("waiting for a condition", c); }
void touch(void const *a, size_t n, bool w, char const *) { access(a, n, w); }
static void *start(void *p)
{
  Thread *t = (Thread *)p; me = t->id;
  ++rt; while (sem_wait(&t->sem) && errno == EINTR) ; --rt;
  t->f();
  ++rt; t->f = nullptr; tick(); t->st = DONE; t->where = "end"; schedule();
  for (;;) pause();      // keep stack and thread-local storage
}
void spawn(std::function<void()> f)
{
  RT g;
  if (NT >= MAXT) { ifail("threads", "too many"); done_process(); }
  Thread *t = new Thread; t->id = NT; sem_init(&t->sem, 0, 0); t->f = f;
  t->vc = T[me]->vc; tick(); ++t->vc.c[t->id];
  T[NT++] = t; tracking = true;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
  if (pthread_create(&t->pt, &at, start, t)) { ifail("threads", "pthread_create"); done_process(); }
  pthread_attr_destroy(&at);
  point_("started a thread");
}
void join()
{
  RT g; int my = me;
  block_until("joining", [my]() { for (int k = 0; k < NT; ++k) if (k != my && T[k]->st != DONE) return false; return true; });
  for (int k = 0; k < NT; ++k) if (k != me) T[me]->vc.join(T[k]->vc);
}
static Model const *M;
static void child(long s)
{
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  alarm(60);
  ++rt;
  shadow = new std::map<uintptr_t, Cell>; blocks = new std::map<uintptr_t, Block>; locs = new std::map<uintptr_t, VC>; mutexes = new std::map<uintptr_t, Mutex>; reported = new std::set<std::string>;
  Thread *t = new Thread; t->id = 0; sem_init(&t->sem, 0, 0); t->vc.c[0] = 1; T[0] = t; NT = 1; me = 0;
  active = true;
  --rt;
  M->body(s);
  ++rt;
  join();
  done_process();
}
struct Res { int status; std::string err; };
static Res run(long s, std::vector<int> const &pre)
{
  sh->nprefix = pre.size(); for (size_t i = 0; i < pre.size(); ++i) sh->prefix[i] = pre[i];
  sh->nchoice = 0; sh->steps = sh->accesses = sh->sync = 0; sh->outcome = 1; sh->finished = 0; sh->nfail = 0; sh->fails[0] = 0;
  fflush(stdout);
  int p[2]; if (pipe(p)) abort();
  pid_t pid = fork();
  if (pid < 0) abort();
  if (!pid) { if (!g_replay) { dup2(p[1], 2); } close(p[0]); close(p[1]); child(s); }
  close(p[1]);
  Res r; char b[2000]; ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0) if (r.err.size() < 6000) r.err.append(b, n);
  close(p[0]);
  waitpid(pid, &r.status, 0);
  if (!sh->finished)
  {
    std::string e; size_t q = r.err.find("Assertion");
    if (q != std::string::npos) { size_t b0 = r.err.rfind('\n', q); e = r.err.substr(b0 == std::string::npos ? 0 : b0 + 1, 400); }
    else e = r.err.substr(0, 300);
    for (auto &c : e) if (c == '\n' || c == '\t') c = ' ';
    ifail(WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGALRM ? "hang" : "crash", "%s %d: %s", WIFSIGNALED(r.status) ? "signal" : "exit status", WIFSIGNALED(r.status) ? WTERMSIG(r.status) : WEXITSTATUS(r.status), e.c_str());
  }
  return r;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc, char **argv, Model const &m)
{
  M = &m;
  long shard = 0, nshard = 1, only = -1, maxdfs = 400000; double budget = 1e9; std::vector<int> opre; bool haspre = false, list = false; int force = -2;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%ld/%ld", &shard, &nshard); }
    else if (a == "--only") only = atol(val().c_str());
    else if (a == "--tier") g_thorough = val() == "thorough";
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--bound") force = atoi(val().c_str());
    else if (a == "--maxdfs") maxdfs = atol(val().c_str());
    else if (a == "--list") list = true;
    else if (a == "--prefix") { haspre = true; std::string v = val(); if (v == "none") v.clear(); size_t p = 0; while (p < v.size()) { opre.push_back(atoi(v.c_str() + p)); p = v.find(',', p); if (p == std::string::npos) break; ++p; } }
  }
  sh = (Shared *)mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  long n = m.count();
  if (list) { for (long i = 0; i < n; ++i) printf("%ld\t%s\n", i, m.describe(i).c_str()); return 0; }
  long scen = 0, runs = 0, choices = 0, steps = 0, acc = 0, sync = 0, capped = 0, nfail = 0, maxch = 0; int nsample = 0;
  std::set<unsigned long long> outcomes; std::map<std::string, int> perkey;
  double t0 = now();
  auto report = [&](long s, std::vector<int> const &pre)
  {
    std::string f(sh->fails, sh->nfail); size_t p = 0;
    while (p < f.size())
    {
      size_t e = f.find('\n', p); if (e == std::string::npos) e = f.size();
      std::string l = f.substr(p, e - p); p = e + 1;
      size_t tab = l.find('\t'); std::string key = l.substr(0, tab), msg = tab == std::string::npos ? "" : l.substr(tab + 1);
      if (perkey[key]++ >= 30) continue;
      ++nfail;
      printf("FAIL\t%s\t%s\t%s\t--only %ld --prefix ", key.c_str(), m.describe(s).c_str(), msg.c_str(), s);
      for (size_t i = 0; i < pre.size(); ++i) printf("%s%d", i ? "," : "", pre[i]);
      printf(pre.empty() ? "none\n" : "\n");
    }
    fflush(stdout);
  };
  for (long s = 0; s < n; ++s)
  {
    if (only >= 0 ? s != only : s % nshard != shard) continue;
    if (now() - t0 > budget) { ++capped; break; }
    ++scen;
    int bound = force != -2 ? force : m.bound ? m.bound(s) : -1;
    std::vector<std::vector<int> > stack(1, opre);
    long cnt = 0, before = choices; bool bad = false;
    while (!stack.empty() && !bad)
    {
      if (cnt >= maxdfs || now() - t0 > budget) { ++capped; break; }
      std::vector<int> pre = stack.back(); stack.pop_back();
      run(s, pre);
      ++cnt; ++runs; steps += sh->steps; acc += sh->accesses; sync += sh->sync; choices += sh->nchoice; outcomes.insert(sh->outcome); maxch = std::max<long>(maxch, sh->nchoice);
      if (sh->nfail) { std::vector<int> c; for (int i = 0; i < sh->nchoice; ++i) c.push_back(sh->ch[i].choice); while (!c.empty() && !c.back()) c.pop_back(); report(s, c); bad = true; break; }
      if (haspre) break;
      int used = 0; std::vector<int> ub(sh->nchoice + 1);
      for (int i = 0; i < sh->nchoice; ++i) { ub[i] = used; if (sh->ch[i].choice && sh->ch[i].cost) ++used; }
      for (int i = sh->nchoice; i-- > (int)pre.size();)
      {
        if (bound >= 0 && ub[i] + sh->ch[i].cost > bound) continue;
        for (int a = 1; a < sh->ch[i].alts; ++a)
        { std::vector<int> q; for (int k = 0; k < i; ++k) q.push_back(sh->ch[k].choice); q.push_back(a); stack.push_back(q); }
      }
    }
    if (nsample < 3) { ++nsample; printf("SAMPLE\t%s [%ld schedules, %.1f choices each]\n", m.describe(s).c_str(), cnt, cnt ? double(choices - before) / cnt : 0.); }
    if (nfail > 150) break;
  }
  printf("STAT\tscenarios\t%ld\nSTAT\texecutions\t%ld\nSTAT\tsteps\t%ld\nSTAT\tchoice_points\t%ld\nSTAT\taccesses_checked\t%ld\nSTAT\tsynchronisations\t%ld\nSTAT\tdistinct_outcomes\t%zu\nSTAT\tdfs_capped\t%ld\nSTAT\tfails\t%ld\nSTATMAX\tmax_choices\t%ld\nDONE\n",
         scen, runs, steps, choices, acc, sync, outcomes.size(), capped, nfail, maxch);
  return 0;
}
} // namespace mct
