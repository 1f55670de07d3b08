// Controlled scheduler and memory monitor for OpenMP code.
//
// Linked into an extension module that was compiled with -fopenmp -fsanitize=thread.
// It replaces libgomp and the tsan run time: the threads of a parallel region are fibers of
// one real thread, and every scheduling decision is taken from a list the explorer supplies.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unordered_map>
#include <vector>

#define API extern "C" __attribute__((visibility("default")))

namespace {
// the monitor's own containers must not go through the monitored operator new
template <class T> struct Raw {
  typedef T value_type;
  Raw() {}
  template <class U> Raw(const Raw<U> &) {}
  T *allocate(size_t n) { return (T *)malloc(n * sizeof(T)); }
  void deallocate(T *p, size_t) { free(p); }
  template <class U> bool operator==(const Raw<U> &) const { return true; }
  template <class U> bool operator!=(const Raw<U> &) const { return false; }
};
template <class T> using Vec = std::vector<T, Raw<T>>;
template <class K, class V> using Map = std::map<K, V, std::less<K>, Raw<std::pair<const K, V>>>;
template <class K, class V>
using Hash = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, Raw<std::pair<const K, V>>>;

constexpr int MAXT = 8;
constexpr size_t STACK = 256 * 1024;
typedef unsigned long long u64;

struct Fiber {
  ucontext_t ctx;
  char *stack = nullptr;
  bool done = true;
  int wait = 0;          // 0 runnable, 1 barrier, 2 lock
  const void *lock = nullptr;
  u64 vc[MAXT];
  u64 loop_gen = 0;
};
struct Shadow { u64 w[MAXT], r[MAXT]; u64 wa[MAXT], ra[MAXT]; };   // plain / atomic clocks per thread
struct Loop { long next, end, incr, chunk; int kind; bool init; };

Fiber fib[MAXT];
ucontext_t mainctx;
int nthr = 1, cur = -1, cfg_threads = 2, mode = 0, give = 0;
bool active = false, in_region = false;
void (*region_fn)(void *);
void *region_data;

Vec<int> *prefix, *trace_n, *trace_c, *trace_p;   // decisions: enabled, chosen, was preemptive choice possible
size_t dpos;
u64 n_access, n_region, n_sync, n_switch;
bool aborted;
char report[512];
Hash<uintptr_t, Shadow> *shadow;
Map<const void *, u64 *> *lockvc;
Map<const void *, int> *lockowner;
Map<uintptr_t, uintptr_t> *guards;      // start -> end of forbidden ranges
Vec<Loop> *loops;
int barrier_waiting, single_next;
u64 single_seen[MAXT];

void fail(const char *fmt, const char *what, const void *addr, int a, int b) {
  if (!report[0]) snprintf(report, sizeof report, fmt, what, addr, a, b);
}

void ensure_init() {
  if (prefix) return;
  prefix = new Vec<int>; trace_n = new Vec<int>;
  trace_c = new Vec<int>; trace_p = new Vec<int>;
  shadow = new Hash<uintptr_t, Shadow>;
  lockvc = new Map<const void *, u64 *>;
  lockowner = new Map<const void *, int>;
  guards = new Map<uintptr_t, uintptr_t>;
  loops = new Vec<Loop>;
}

// ---------------------------------------------------------------- scheduling
// Picks the next fiber. Candidates are listed with the running one first, so that choice 0
// never is a preemption.
int pick(bool cur_ok) {
  int cand[MAXT], n = 0;
  if (cur_ok) cand[n++] = cur;
  for (int i = 0; i < nthr; i++)
    if (!fib[i].done && fib[i].wait == 0 && !(cur_ok && i == cur)) cand[n++] = i;
  if (n == 0) return -1;
  int c = 0;
  if (n > 1) {
    if (dpos < prefix->size()) c = (*prefix)[dpos];
    if (c >= n) { fail("%s at decision %p (%d of %d)", "schedule replay diverged", (void *)dpos, c, n); c = 0; }
    dpos++;
    trace_n->push_back(n); trace_c->push_back(c); trace_p->push_back(cur_ok);
  }
  return cand[c];
}

void switch_to(int nxt) {
  int old = cur;
  if (nxt == old) return;
  n_switch++;
  cur = nxt;
  swapcontext(&fib[old].ctx, &fib[nxt].ctx);
}

void reschedule(bool cur_ok) {          // called from a fiber
  int nxt = pick(cur_ok);
  if (nxt < 0) { // deadlock
    fail("%s (%p, %d of %d threads)", "all threads blocked", nullptr, cur, nthr);
    aborted = true;
    int old = cur; cur = -1;
    swapcontext(&fib[old].ctx, &mainctx);
    return;
  }
  switch_to(nxt);
}

void entry() {
  region_fn(region_data);
  int me = cur;
  fib[me].done = true;
  int nxt = pick(false);
  if (nxt < 0) {
    bool all = true;
    for (int i = 0; i < nthr; i++) all = all && fib[i].done;
    if (!all) { fail("%s (%p, %d of %d threads)", "all threads blocked", nullptr, me, nthr); aborted = true; }
    cur = -1;
    setcontext(&mainctx);
  }
  n_switch++;
  cur = nxt;
  setcontext(&fib[nxt].ctx);
}

// ---------------------------------------------------------------- memory
void access(const void *p, size_t n, bool w, bool at) {
  if (!active) return;
  uintptr_t a = (uintptr_t)p;
  if (!guards->empty()) {
    auto it = guards->upper_bound(a + n - 1);
    if (it != guards->begin()) {
      --it;
      if (it->second > a) fail(w ? "%s %p by thread %d of %d" : "%s %p by thread %d of %d",
                               w ? "write outside an array at" : "read outside an array at", (void *)0, cur, nthr);
    }
  }
  if (!in_region) return;
  n_access++;
  Fiber &f = fib[cur];
  f.vc[cur]++;
  for (size_t i = 0; i < n; i++) {
    Shadow &s = (*shadow)[a + i];
    for (int t = 0; t < nthr; t++) {
      if (t == cur) continue;
      u64 seen = f.vc[t];
      bool race = (w && s.r[t] > seen) || s.w[t] > seen;
      if (!at) race = race || (w && s.ra[t] > seen) || s.wa[t] > seen;
      if (race) fail("%s (%p) between threads %d and %d", "unsynchronised conflicting accesses to one location",
                     nullptr, t < cur ? t : cur, t < cur ? cur : t);
    }
    if (at) (w ? s.wa : s.ra)[cur] = f.vc[cur];
    else (w ? s.w : s.r)[cur] = f.vc[cur];
  }
}
void plain(const void *p, size_t n, bool w) {
  if (!active) return;
  if (in_region && mode == 1 && !aborted) {
    char *sp = fib[cur].stack;
    if (!((char *)p >= sp && (char *)p < sp + STACK)) reschedule(true);
  }
  access(p, n, w, false);
}
void syncpoint() {
  if (active && in_region) { n_sync++; reschedule(true); }
}
void acquire(const void *l) {
  auto it = lockvc->find(l);
  if (it != lockvc->end())
    for (int i = 0; i < MAXT; i++) if (it->second[i] > fib[cur].vc[i]) fib[cur].vc[i] = it->second[i];
}
void release(const void *l) {
  u64 *&v = (*lockvc)[l];
  if (!v) v = (u64 *)calloc(MAXT, sizeof(u64));
  for (int i = 0; i < MAXT; i++) v[i] = fib[cur].vc[i];
  fib[cur].vc[cur]++;
}
void lock(const void *l) {
  if (!(active && in_region)) return;
  syncpoint();
  while (lockowner->count(l)) { fib[cur].wait = 2; fib[cur].lock = l; reschedule(false); if (aborted) return; }
  (*lockowner)[l] = cur;
  acquire(l);
}
void unlock(const void *l) {
  if (!(active && in_region)) return;
  release(l);
  lockowner->erase(l);
  for (int i = 0; i < nthr; i++) if (fib[i].wait == 2 && fib[i].lock == l) fib[i].wait = 0;
}
void barrier() {
  if (!(active && in_region)) return;
  n_sync++;
  int alive = 0;
  for (int i = 0; i < nthr; i++) alive += !fib[i].done;
  barrier_waiting++;
  if (barrier_waiting == alive) {
    barrier_waiting = 0;
    u64 m[MAXT];
    memset(m, 0, sizeof m);
    for (int i = 0; i < nthr; i++) for (int k = 0; k < MAXT; k++) if (fib[i].vc[k] > m[k]) m[k] = fib[i].vc[k];
    for (int i = 0; i < nthr; i++) { memcpy(fib[i].vc, m, sizeof m); fib[i].vc[i]++; if (fib[i].wait == 1) fib[i].wait = 0; }
    reschedule(true);
  } else {
    fib[cur].wait = 1;
    reschedule(false);
  }
}

void run_region(void (*fn)(void *), void *data, unsigned want) {
  if (!active || in_region) {            // not monitored, or nested: one thread
    fn(data);
    return;
  }
  int n = want ? (int)want : cfg_threads;
  if (n > MAXT) n = MAXT;
  if (give && n > give) n = give;        // the runtime may deliver fewer threads than asked for
  if (n < 1) n = 1;
  n_region++;
  nthr = n; region_fn = fn; region_data = data;
  in_region = true; barrier_waiting = 0; aborted = false; single_next = 0;
  shadow->clear(); lockowner->clear(); loops->clear();
  for (auto &kv : *lockvc) free(kv.second);
  lockvc->clear();
  for (int i = 0; i < n; i++) {
    Fiber &f = fib[i];
    if (!f.stack) f.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memset(f.vc, 0, sizeof f.vc);
    f.vc[i] = 1; f.done = false; f.wait = 0; f.loop_gen = 0; single_seen[i] = 0;
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack;
    f.ctx.uc_stack.ss_size = STACK;
    f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, entry, 0);
  }
  cur = -1;
  int first = pick(false);
  cur = first;
  swapcontext(&mainctx, &fib[first].ctx);
  in_region = false;
  cur = -1; nthr = 1;
}
// ---------------------------------------------------------------- loops
Loop solo; bool solo_on = false;
bool grab(long *s, long *e) {
  if (!(active && in_region)) {    // one thread: everything at once
    if (!solo_on) return false;
    solo_on = false;
    *s = solo.next; *e = solo.end;
    return solo.incr > 0 ? solo.next < solo.end : solo.next > solo.end;
  }
  syncpoint();
  Loop &l = (*loops)[fib[cur].loop_gen - 1];
  bool up = l.incr > 0;
  if (up ? l.next >= l.end : l.next <= l.end) return false;
  long chunk = l.chunk > 0 ? l.chunk : 1;
  if (l.kind == 2) {
    long left = (l.end - l.next + l.incr + (up ? -1 : 1)) / l.incr;
    long q = (left + nthr - 1) / nthr;
    if (q > chunk) chunk = q;
  }
  *s = l.next;
  long ne = l.next + chunk * l.incr;
  if (up ? ne > l.end : ne < l.end) ne = l.end;
  *e = ne; l.next = ne;
  return true;
}
bool start(long a, long b, long inc, long chunk, int kind, long *s, long *e) {
  if (!(active && in_region)) {     // one thread: everything at once
    if (inc > 0 ? a >= b : a <= b) return false;
    *s = a; *e = b;
    return true;
  }
  u64 g = ++fib[cur].loop_gen;
  if (loops->size() < g) loops->push_back(Loop{a, b, inc, chunk, kind, true});
  return grab(s, e);
}
struct Pack { void (*fn)(void *); void *data; };
} // namespace

// ------------------------------------------------------------------ explorer interface
API void mc_begin(int threads, int md, const int *pre, int npre) {
  ensure_init();
  cfg_threads = threads; mode = md;
  prefix->assign(pre, pre + npre);
  trace_n->clear(); trace_c->clear(); trace_p->clear();
  dpos = 0; n_access = n_region = n_sync = n_switch = 0; report[0] = 0; aborted = false;
  active = true;
}
API void mc_give(int n) { give = n; }
API void mc_end() { active = false; guards->clear(); }
API int mc_trace(int *n, int *c, int *p, int cap) {
  int k = (int)trace_n->size();
  for (int i = 0; i < k && i < cap; i++) { n[i] = (*trace_n)[i]; c[i] = (*trace_c)[i]; p[i] = (*trace_p)[i]; }
  return k;
}
API const char *mc_report() { return report; }
API u64 mc_count(int what) { return what == 0 ? n_access : what == 1 ? n_region : what == 2 ? n_sync : n_switch; }
API void mc_guard(uintptr_t a, uintptr_t b) { ensure_init(); if (b > a) (*guards)[a] = b; }

// ------------------------------------------------------------------ libgomp
API void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_region(fn, data, n); }
API int omp_get_thread_num() { return in_region ? cur : 0; }
API int omp_get_num_threads() { return in_region ? nthr : 1; }
API int omp_get_max_threads() { return cfg_threads; }
API int omp_get_num_procs() { return cfg_threads; }
API int omp_in_parallel() { return in_region; }
API void omp_set_num_threads(int n) { cfg_threads = n; }
API double omp_get_wtime() { return 0.; }
API void GOMP_barrier() { barrier(); }
API bool GOMP_cancel(int, bool) { return false; }
API void GOMP_critical_start() { lock((void *)1); }
API void GOMP_critical_end() { unlock((void *)1); }
API void GOMP_critical_name_start(void **p) { lock(p); }
API void GOMP_critical_name_end(void **p) { unlock(p); }
API void GOMP_atomic_start() { lock((void *)2); }
API void GOMP_atomic_end() { unlock((void *)2); }
API bool GOMP_single_start() {
  if (!(active && in_region)) return true;
  syncpoint();
  u64 mine = ++single_seen[cur];
  if ((u64)single_next < mine) { single_next++; return true; }
  return false;
}
API void GOMP_loop_end() { barrier(); }
API void GOMP_loop_end_nowait() {}
#define LOOP(NAME, KIND)                                                                       \
  API bool GOMP_loop_##NAME##_start(long a, long b, long i, long c, long *s, long *e) {        \
    return start(a, b, i, c, KIND, s, e); }                                                    \
  API bool GOMP_loop_##NAME##_next(long *s, long *e) { return grab(s, e); }                    \
  API bool GOMP_loop_ull_##NAME##_start(bool up, u64 a, u64 b, u64 i, u64 c, u64 *s, u64 *e) { \
    return start((long)a, (long)b, up ? (long)i : -(long)(-(long)i), (long)c, KIND, (long *)s, (long *)e); } \
  API bool GOMP_loop_ull_##NAME##_next(u64 *s, u64 *e) { return grab((long *)s, (long *)e); }
LOOP(dynamic, 1) LOOP(guided, 2) LOOP(static, 1)
LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2)
#define LOOPR(NAME)                                                                            \
  API bool GOMP_loop_##NAME##_start(long a, long b, long i, long *s, long *e) {                \
    return start(a, b, i, 1, 1, s, e); }                                                       \
  API bool GOMP_loop_##NAME##_next(long *s, long *e) { return grab(s, e); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
namespace {
struct LoopRegion { void (*fn)(void *); void *data; long a, b, i, c; int kind; };
void loop_entry(void *v) {
  LoopRegion *r = (LoopRegion *)v;
  if (active && in_region) {
    fib[cur].loop_gen = 1;
    if (loops->empty()) loops->push_back(Loop{r->a, r->b, r->i, r->c, r->kind, true});
  } else { solo = Loop{r->a, r->b, r->i, r->c, r->kind, true}; solo_on = true; }
  r->fn(r->data);
}
}
#define PLOOP(NAME, KIND)                                                                      \
  API void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long a, long b,  \
                                     long i, long c, unsigned) {                               \
    LoopRegion r{fn, d, a, b, i, c, KIND}; run_region(loop_entry, &r, active && !in_region ? n : 1); }
PLOOP(dynamic, 1) PLOOP(guided, 2) PLOOP(static, 1)
PLOOP(nonmonotonic_dynamic, 1) PLOOP(nonmonotonic_guided, 2)
API void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned) {
  LoopRegion r{fn, d, a, b, i, 1, 1}; run_region(loop_entry, &r, n); }
API void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned) {
  LoopRegion r{fn, d, a, b, i, 1, 1}; run_region(loop_entry, &r, n); }
API void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned) {
  LoopRegion r{fn, d, a, b, i, 1, 1}; run_region(loop_entry, &r, n); }

// ------------------------------------------------------------------ tsan instrumentation
API void __tsan_init() {}
API void __tsan_func_entry(void *) {}
API void __tsan_func_exit() {}
API void __tsan_vptr_update(void **, void *) {}
API void __tsan_vptr_read(void **) {}
#define RW(N)                                                              \
  API void __tsan_read##N(void *p) { plain(p, N, false); }                 \
  API void __tsan_write##N(void *p) { plain(p, N, true); }                 \
  API void __tsan_unaligned_read##N(void *p) { plain(p, N, false); }       \
  API void __tsan_unaligned_write##N(void *p) { plain(p, N, true); }       \
  API void __tsan_volatile_read##N(void *p) { plain(p, N, false); }        \
  API void __tsan_volatile_write##N(void *p) { plain(p, N, true); }        \
  API void __tsan_unaligned_volatile_read##N(void *p) { plain(p, N, false); } \
  API void __tsan_unaligned_volatile_write##N(void *p) { plain(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_read_range(void *p, size_t n) { plain(p, n, false); }
API void __tsan_write_range(void *p, size_t n) { plain(p, n, true); }
API void __tsan_atomic_thread_fence(int) { syncpoint(); }
API void __tsan_atomic_signal_fence(int) {}
namespace {
const int ACQ = __ATOMIC_ACQUIRE, REL = __ATOMIC_RELEASE;
void at_pre(const volatile void *p, size_t n, bool w, int mo) {
  syncpoint();
  if (active && in_region && (mo == ACQ || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME)) acquire((const void *)p);
  access((const void *)p, n, w, true);
}
void at_post(const volatile void *p, int mo) {
  if (active && in_region && (mo == REL || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) release((const void *)p);
}
}
#define ATOM(B, T)                                                                                     \
  API T __tsan_atomic##B##_load(const volatile T *p, int mo) { at_pre(p, sizeof(T), false, mo); return *p; } \
  API void __tsan_atomic##B##_store(volatile T *p, T v, int mo) { at_pre(p, sizeof(T), true, mo); *p = v; at_post(p, mo); } \
  API T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) { at_pre(p, sizeof(T), true, mo); T o = *p; *p = v; at_post(p, mo); return o; } \
  API T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo) { at_pre(p, sizeof(T), true, mo); T o = *p; *p = o + v; at_post(p, mo); return o; } \
  API T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo) { at_pre(p, sizeof(T), true, mo); T o = *p; *p = o - v; at_post(p, mo); return o; } \
  API T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo) { at_pre(p, sizeof(T), true, mo); T o = *p; *p = o & v; at_post(p, mo); return o; } \
  API T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo) { at_pre(p, sizeof(T), true, mo); T o = *p; *p = o | v; at_post(p, mo); return o; } \
  API T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int mo) { at_pre(p, sizeof(T), true, mo); T o = *p; *p = o ^ v; at_post(p, mo); return o; } \
  API int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int) {          \
    at_pre(p, sizeof(T), true, mo); T o = *p; if (o == *c) { *p = v; at_post(p, mo); return 1; } *c = o; return 0; } \
  API int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int f) {          \
    return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, f); }                               \
  API T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T c, T v, int mo, int) {                \
    at_pre(p, sizeof(T), true, mo); T o = *p; if (o == c) { *p = v; at_post(p, mo); } return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)

// ------------------------------------------------------------------ heap blocks of C++ code
// The bytes just behind every block are off limits while code is monitored.
namespace {
constexpr size_t RED = 64;
void *grant(size_t n) {
  char *p = (char *)malloc(n + RED);
  if (!p) abort();
  if (active) (*guards)[(uintptr_t)p + n] = (uintptr_t)p + n + RED;
  return p;
}
void drop(void *p) {
  if (!p) return;
  if (guards && !guards->empty()) {
    uintptr_t a = (uintptr_t)p, b = a + malloc_usable_size(p);
    auto it = guards->lower_bound(a);
    while (it != guards->end() && it->first < b) it = guards->erase(it);
  }
  free(p);
}
}
void *operator new(size_t n) { return grant(n); }
void *operator new[](size_t n) { return grant(n); }
void operator delete(void *p) noexcept { drop(p); }
void operator delete[](void *p) noexcept { drop(p); }
void operator delete(void *p, size_t) noexcept { drop(p); }
void operator delete[](void *p, size_t) noexcept { drop(p); }
