// See ompsim.h.  Implements the entry points of libgomp and of the gcc thread instrumentation.
#include "ompsim.h"
#include <pthread.h>
#include <semaphore.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <time.h>
#include <unistd.h>
#include <malloc.h>
#include <sys/mman.h>
namespace {
using namespace ompsim;
typedef unsigned long ul; typedef unsigned long long ull;
struct VC { uint32_t c[MAXT]; void join(const VC &o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Work { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; bool up = true; int kind = 0; ull unext = 0, uend = 0, uincr = 1, uchunk = 1; int single = -1; void *copy = 0; int sections = 0, sec_next = 1; };
enum State { READY, BARRIER, LOCK, DONE };
struct Th { State st = DONE; void *wait = 0; VC vc; int nest = 0; ul work = 0; sem_t go; ul ticks = 0; };
struct Sync { VC vc; int owner = -1; int depth = 0; };
Schedule S; Result R; bool active = false;      // between begin() and end()
int T = 1; Th th[MAXT]; bool in_region = false; ul works_done = 0;
std::map<ul, Work> works; std::map<const void *, Sync> syncs; void (*fn_)(void *); void *data_;
__thread int me = 0; pthread_t pool[MAXT]; pid_t pool_pid = 0; sem_t fin; __thread bool internal = false; std::map<ul, Work> lone[MAXT];
struct Quiet { bool o; Quiet() : o(internal) { internal = true; } ~Quiet() { internal = o; } };
void die(const char *m) { fprintf(stderr, "runtime error: OpenMP: %s\n", m); fflush(stderr); _exit(77); }
// ---- shadow memory -------------------------------------------------------------------------------------------
struct Entry { const void *pc; uint32_t clk; uint8_t tid, mask, write, atomic; };
struct Cell { uintptr_t g; uint32_t gen; uint32_t n; Entry e[24]; };
Cell *tab = 0; size_t NT = 1 << 17, used = 0; uint32_t gen = 1;
Cell *alloc_tab(size_t n) { void *p = mmap(0, n * sizeof(Cell), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) die("out of shadow memory"); return (Cell *)p; }
inline size_t hsh(uintptr_t g, size_t n) { g *= 0x9E3779B97F4A7C15ULL; return (g >> 20) & (n - 1); }
void grow();
Cell *cell(uintptr_t g, bool create) {
  size_t i = hsh(g, NT);
  while (tab[i].gen == gen) { if (tab[i].g == g) return &tab[i]; i = (i + 1) & (NT - 1); }
  if (!create) return 0;
  if (used * 2 > NT) { grow(); return cell(g, true); }
  ++used; tab[i].g = g; tab[i].gen = gen; tab[i].n = 0; return &tab[i];
}
void grow() { Cell *o = tab; size_t on = NT; NT *= 2; tab = alloc_tab(NT); used = 0; for (size_t i = 0; i < on; ++i) if (o[i].gen == gen) { Cell *c = cell(o[i].g, true); c->n = o[i].n; memcpy(c->e, o[i].e, sizeof c->e); } munmap(o, on * sizeof(Cell)); }
void forget() { if (++gen == 0) { munmap(tab, NT * sizeof(Cell)); tab = alloc_tab(NT); gen = 1; } used = 0; if (NT > (1u << 20)) { munmap(tab, NT * sizeof(Cell)); NT = 1 << 17; tab = alloc_tab(NT); gen = 1; } }
std::string where(const void *pc) {
  static std::map<const void *, std::string> m; auto &s = m[pc]; if (!s.empty()) return s;
  char exe[400]; ssize_t k = readlink("/proc/self/exe", exe, 399); if (k < 0) return s = "?"; exe[k] = 0;
  uintptr_t base = 0; { FILE *f = fopen("/proc/self/maps", "r"); char l[800]; while (f && fgets(l, 800, f)) if (strstr(l, exe)) { base = strtoull(l, 0, 16); break; } if (f) fclose(f); }
  char cmd[900]; snprintf(cmd, 900, "addr2line -Cfise %s 0x%lx 2>/dev/null", exe, (ul)((uintptr_t)pc - base - 1));
  FILE *p = popen(cmd, "r"); char l[600]; int n = 0; while (p && fgets(l, 600, p) && n < 4) { l[strcspn(l, "\n")] = 0; s += (n ? (n & 1 ? " " : " <- ") : "") + std::string(l).substr(0, 90); ++n; } if (p) pclose(p);
  if (s.empty()) s = "?"; return s;
}
void race(const Entry &a, const void *pc, bool w, bool at, uintptr_t addr) {
  Quiet q; if (R.problems.size() > 8) return;
  static std::set<std::pair<const void *, const void *>> seen; if (!seen.insert({a.pc, pc}).second) { if (R.problems.empty()) R.problems.push_back("data race"); if (R.problems.size()) return; }
  char b[2400]; snprintf(b, sizeof b, "data race on 0x%lx: thread %d %s%s in %s and thread %d %s%s in %s are not ordered", (ul)addr, a.tid, a.atomic ? "atomically " : "", a.write ? "writes" : "reads", where(a.pc).c_str(), me, at ? "atomically " : "", w ? "writes" : "reads", where(pc).c_str());
  R.problems.push_back(b);
}
void switch_to_next(bool rotate);
void touch(uintptr_t a, size_t n, bool w, bool at, const void *pc) {
  R.accesses++; uint32_t clk = th[me].vc.c[me];
  while (n) {
    uintptr_t g = a >> 3; size_t o = a & 7, k = 8 - o; if (k > n) k = n; uint8_t mask = ((1u << k) - 1) << o;
    Cell *c = cell(g, true); uint32_t keep = 0; bool stored = false;
    for (uint32_t i = 0; i < c->n; ++i) {
      Entry &e = c->e[i];
      if (e.tid == me) {
        if (e.write == w && e.atomic == at) { if (e.clk == clk) { e.mask |= mask; stored = true; } else if ((e.mask & ~mask) == 0) continue; }
      } else if ((e.mask & mask) && (e.write || w) && !(e.atomic && at) && e.clk > th[me].vc.c[e.tid]) race(e, pc, w, at, a);
      if (e.tid != me) { bool ord = true; for (int t = 0; t < T && ord; ++t) if (th[t].vc.c[e.tid] < e.clk) ord = false; if (ord) continue; }
      if (keep != i) c->e[keep] = e; ++keep;
    }
    c->n = keep;
    if (!stored) { if (c->n && c->e[0].tid != me) R.shared++; if (c->n == 24) { memmove(c->e, c->e + 1, 23 * sizeof(Entry)); c->n = 23; } c->e[c->n++] = Entry{pc, clk, (uint8_t)me, mask, w, at}; }
    a += k; n -= k;
  }
}
inline bool tracking() { return in_region && !internal && !th[me].nest; }
inline void acc(const void *p, size_t n, bool w, const void *pc) {
  if (!tracking()) return;
  { Quiet q; touch((uintptr_t)p, n, w, false, pc); }
  if (S.quantum && ++th[me].ticks % S.quantum == 0) switch_to_next(true);
}
void erase(void *p) {
  if (!tracking() || !p) return; Quiet q; size_t n = malloc_usable_size(p); if (!n) return; touch((uintptr_t)p, n, true, false, __builtin_return_address(0));
  for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n - 1) >> 3; ++g) if (Cell *c = cell(g, false)) c->n = 0;
}
// ---- scheduler -----------------------------------------------------------------------------------------------
int prio_of(int k) { return k < (int)S.order.size() ? S.order[k] : k; }
void run_next(int t) { if (t == me) return; R.switches++; int self = me; sem_post(&th[t].go); while (sem_wait(&th[self].go)) {} }
bool lock_free(void *l) { return syncs[l].owner < 0; }
bool runnable(int t) { return th[t].st == READY || (th[t].st == LOCK && lock_free(th[t].wait)); }
int pick() { Quiet q; for (int k = 0; k < T; ++k) { int t = prio_of(k); if (t < T && runnable(t)) return t; } return -1; }
void switch_to_next(bool rotate) {
  (void)rotate; Quiet q; for (int k = 1; k < T; ++k) { int t = (me + k) % T; if (runnable(t)) { run_next(t); return; } }
}
// a point where the order matters: every runnable thread may come first
void choice() {
  if (!tracking()) return;
  Quiet q; R.syncs++; std::vector<int> r; r.push_back(me); for (int t = 0; t < T; ++t) if (t != me && runnable(t)) r.push_back(t);
  size_t k = R.branch.size(); int c = k < S.path.size() ? S.path[k] : 0; if (c >= (int)r.size()) c = 0;
  if (k < 4000) { R.branch.push_back(r.size()); R.taken.push_back(c); }
  if (c) run_next(r[c]);
}
void block() { Quiet q; int t = pick(); if (t < 0) die("deadlock: no thread of the team can continue"); run_next(t); }
void barrier() {
  if (!tracking()) return;
  Quiet q; R.syncs++; th[me].st = BARRIER; int n = 0; for (int t = 0; t < T; ++t) n += th[t].st == BARRIER; 
  for (int t = 0; t < T; ++t) if (th[t].st == DONE) die("a thread left the parallel region while others wait at a barrier");
  if (n == T) {
    VC v = th[0].vc; for (int t = 1; t < T; ++t) v.join(th[t].vc);
    for (int t = 0; t < T; ++t) { th[t].vc = v; th[t].vc.c[t]++; th[t].st = READY; } forget();
    int t = pick(); run_next(t);
  } else block();
}
void acquire(void *l) {
  if (!tracking()) return; choice(); Quiet q; Sync &s = syncs[l];
  while (s.owner >= 0) { if (s.owner == me) die("a lock is taken twice by the same thread"); th[me].st = LOCK; th[me].wait = l; block(); th[me].st = READY; }
  s.owner = me; th[me].vc.join(s.vc);
}
void release(void *l) { if (!tracking()) return; { Quiet q; Sync &s = syncs[l]; if (s.owner != me) die("a lock is released by a thread that does not hold it"); s.owner = -1; s.vc = th[me].vc; th[me].vc.c[me]++; } choice(); }
void finish() { // the running thread has left the region
  Quiet q; th[me].st = DONE; int n = 0; for (int t = 0; t < T; ++t) n += th[t].st == DONE;
  for (int t = 0; t < T; ++t) if (th[t].st == BARRIER) die("a thread left the parallel region while others wait at a barrier");
  if (n == T) { sem_post(&fin); return; }
  int t = pick(); if (t < 0) die("deadlock: no thread of the team can continue"); R.switches++; sem_post(&th[t].go);
}
void *worker(void *a) { me = (int)(intptr_t)a; for (;;) { while (sem_wait(&th[me].go)) {} fn_(data_); finish(); } return 0; }
void ensure_pool() {
  if (pool_pid == getpid()) return; pool_pid = getpid(); sem_init(&fin, 0, 0);
  for (int t = 0; t < MAXT; ++t) sem_init(&th[t].go, 0, 0);
  for (int t = 1; t < MAXT; ++t) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20); if (pthread_create(&pool[t], &at, worker, (void *)(intptr_t)t)) die("cannot create a thread"); }
  if (!tab) tab = alloc_tab(NT);
}
void region(void (*fn)(void *), void *data, unsigned want, Work *pre = 0) {
  int n = want ? (int)want : S.threads; if (n > MAXT) n = MAXT; if (!active) n = 1;
  if (in_region || n == 1) { // nested or alone: a team of one
    Th &t = th[me]; ul sv = t.work; std::map<ul, Work> old; t.nest++; old.swap(lone[me]); if (pre) lone[me][0] = *pre; t.work = pre ? 1 : 0;
    fn(data); t.work = sv; old.swap(lone[me]); t.nest--; return; }
  { Quiet q; ensure_pool(); T = n; R.regions++; works.clear(); if (pre) works[0] = *pre; syncs.clear(); forget();
    for (int t = 0; t < T; ++t) { memset(&th[t].vc, 0, sizeof(VC)); th[t].vc.c[t] = 1; th[t].st = READY; th[t].nest = 0; th[t].work = pre ? 1 : 0; th[t].ticks = 0; } fn_ = fn; data_ = data; }
  in_region = true; int t0 = pick();
  if (t0 != 0) run_next(t0);
  fn(data);
  { Quiet q; th[0].st = DONE; int left = 0; for (int t = 0; t < T; ++t) { if (th[t].st == BARRIER) die("a thread left the parallel region while others wait at a barrier"); left += th[t].st != DONE; }
    if (left) { int t = pick(); if (t < 0) die("deadlock: no thread of the team can continue"); R.switches++; sem_post(&th[t].go); while (sem_wait(&fin)) {} } else { /* this thread was the last */ } }
  in_region = false; T = 1; for (int t = 0; t < MAXT; ++t) th[t].nest = 0;
}
Work &work_of(ul id) { return th[me].nest || !in_region ? lone[me][id] : works[id]; }
int nthreads() { return in_region && !th[me].nest ? T : 1; }
int tnum() { return in_region && !th[me].nest ? me : 0; }
bool grab(long *a, long *b) {
  choice(); Quiet q; Work &w = work_of(th[me].work - 1); long left = w.up ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr;
  if (w.up ? w.next >= w.end : w.next <= w.end) return false;
  long c = w.chunk; if (w.kind == 2) { long g = (left + nthreads() - 1) / nthreads(); if (g > c) c = g; } if (c < 1) c = 1; if (c > left) c = left;
  *a = w.next; w.next += c * w.incr; *b = w.next; if (w.up ? *b > w.end : *b < w.end) *b = w.end; return true;
}
// static: the k-th chunk of this thread
bool loop_start(long s, long e, long inc, long chunk, int kind, long *a, long *b) { { Quiet q; ul id = th[me].work++; Work &w = work_of(id); if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = inc; w.chunk = chunk; w.up = inc > 0; w.kind = kind; } } return grab(a, b); }
bool ugrab(ull *a, ull *b) { choice(); Quiet q; Work &w = work_of(th[me].work - 1); if (w.up ? w.unext >= w.uend : w.unext <= w.uend) return false; ull left = w.up ? (w.uend - w.unext + w.uincr - 1) / w.uincr : (w.unext - w.uend + (0 - w.uincr) - 1) / (0 - w.uincr); ull c = w.uchunk; if (w.kind == 2) { ull g = (left + nthreads() - 1) / nthreads(); if (g > c) c = g; } if (c < 1) c = 1; if (c > left) c = left;
  *a = w.unext; w.unext += c * w.uincr; *b = w.unext; if (w.up ? *b > w.uend : *b < w.uend) *b = w.uend; return true; }
bool uloop_start(bool up, ull s, ull e, ull inc, ull chunk, int kind, ull *a, ull *b) { { Quiet q; ul id = th[me].work++; Work &w = work_of(id); if (!w.init) { w.init = true; w.unext = s; w.uend = e; w.uincr = inc; w.uchunk = chunk; w.up = up; w.kind = kind; } } return ugrab(a, b); }
Work mk(long s, long e, long inc, long chunk, int kind) { Work w; w.init = true; w.next = s; w.end = e; w.incr = inc; w.chunk = chunk; w.up = inc > 0; w.kind = kind; return w; }
char CRIT, ATOM;
}
namespace ompsim {
void begin(const Schedule &s) { Quiet q; S = s; R = Result(); active = true; if (S.threads > MAXT) S.threads = MAXT; }
Result end() { active = false; Result r = R; R = Result(); return r; }
}
#define PC __builtin_return_address(0)
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { region(fn, d, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *d, unsigned n, unsigned) { region(fn, d, n); return n; }
void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
void GOMP_critical_start(void) { acquire(&CRIT); } void GOMP_critical_end(void) { release(&CRIT); }
void GOMP_critical_name_start(void **p) { acquire(p); } void GOMP_critical_name_end(void **p) { release(p); }
void GOMP_atomic_start(void) { acquire(&ATOM); } void GOMP_atomic_end(void) { release(&ATOM); }
bool GOMP_single_start(void) { choice(); Quiet q; Work &w = work_of(th[me].work++); if (w.single >= 0) return false; w.single = me; return true; }
void *GOMP_single_copy_start(void) { choice(); Quiet q; Work &w = work_of(th[me].work++); if (w.single < 0) { w.single = me; return 0; } ul id = th[me].work - 1; internal = q.o; barrier(); return work_of(id).copy; }
void GOMP_single_copy_end(void *d) { { Quiet q; work_of(th[me].work - 1).copy = d; } barrier(); }
#define LOOP(NAME, KIND) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, KIND, a, b); } \
bool GOMP_loop_##NAME##_next(long *a, long *b) { return grab(a, b); } \
bool GOMP_loop_ull_##NAME##_start(bool u, ull s, ull e, ull i, ull c, ull *a, ull *b) { return uloop_start(u, s, e, i, c, KIND, a, b); } \
bool GOMP_loop_ull_##NAME##_next(ull *a, ull *b) { return ugrab(a, b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { Work w = mk(s, e, i, c, KIND); region(fn, d, n, &w); }
#define LOOPR(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, 1, a, b); } \
bool GOMP_loop_##NAME##_next(long *a, long *b) { return grab(a, b); } \
bool GOMP_loop_ull_##NAME##_start(bool u, ull s, ull e, ull i, ull *a, ull *b) { return uloop_start(u, s, e, i, 1, 1, a, b); } \
bool GOMP_loop_ull_##NAME##_next(ull *a, ull *b) { return ugrab(a, b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { Work w = mk(s, e, i, 1, 1); region(fn, d, n, &w); }
LOOP(static, 1) LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2)
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); } void GOMP_loop_end_nowait(void) {} bool GOMP_loop_end_cancel(void) { barrier(); return false; }
unsigned GOMP_sections_next(void) { choice(); Quiet q; Work &w = work_of(th[me].work - 1); return w.sec_next <= w.sections ? w.sec_next++ : 0; }
unsigned GOMP_sections_start(unsigned n) { { Quiet q; Work &w = work_of(th[me].work++); if (!w.init) { w.init = true; w.sections = n; } } return GOMP_sections_next(); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned c, unsigned) { Work w; w.init = true; w.sections = c; region(fn, d, n, &w); }
void GOMP_sections_end(void) { barrier(); } void GOMP_sections_end_nowait(void) {} bool GOMP_sections_end_cancel(void) { barrier(); return false; }
void GOMP_task(void (*fn)(void *), void *d, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
  if (cpy) { char *b = (char *)malloc(size + align); char *p = (char *)(((uintptr_t)b + align - 1) & ~(uintptr_t)(align - 1)); cpy(p, d); fn(p); free(b); } else fn(d); }
void GOMP_taskwait(void) {} void GOMP_taskyield(void) {} void GOMP_taskgroup_start(void) {} void GOMP_taskgroup_end(void) {}
void GOMP_ordered_start(void) {} void GOMP_ordered_end(void) {} bool GOMP_cancel(int, bool) { return false; } bool GOMP_cancellation_point(int) { return false; }
int omp_get_max_threads(void) { return th[me].nest || in_region ? 1 : active ? S.threads : 1; } int omp_get_num_threads(void) { return nthreads(); } int omp_get_thread_num(void) { return tnum(); }
int omp_get_num_procs(void) { return S.threads; } int omp_in_parallel(void) { return nthreads() > 1; } void omp_set_num_threads(int n) { if (active && n > 0 && !in_region) S.threads = n > MAXT ? MAXT : n; }
double omp_get_wtime(void) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; } double omp_get_wtick(void) { return 1e-9; }
int omp_get_level(void) { return in_region ? 1 : 0; } int omp_get_active_level(void) { return nthreads() > 1; } void omp_set_dynamic(int) {} int omp_get_dynamic(void) { return 0; } void omp_set_nested(int) {} int omp_get_nested(void) { return 0; } int omp_get_thread_limit(void) { return MAXT; } int omp_get_team_size(int) { return nthreads(); } int omp_get_ancestor_thread_num(int) { return tnum(); }
void omp_init_lock(void *) {} void omp_destroy_lock(void *) {} void omp_set_lock(void *l) { acquire(l); } void omp_unset_lock(void *l) { release(l); }
int omp_test_lock(void *l) { if (!tracking()) return 1; choice(); bool f; { Quiet q; f = syncs[l].owner < 0; } if (f) { Quiet q; syncs[l].owner = me; th[me].vc.join(syncs[l].vc); } return f; }
void omp_init_nest_lock(void *) {} void omp_destroy_nest_lock(void *) {}
void omp_set_nest_lock(void *l) { if (!tracking()) return; { Quiet q; Sync &s = syncs[l]; if (s.owner == me) { s.depth++; return; } } acquire(l); Quiet q; syncs[l].depth = 1; }
void omp_unset_nest_lock(void *l) { if (!tracking()) return; { Quiet q; if (--syncs[l].depth > 0) return; } release(l); }
// ---- instrumentation -------------------------------------------------------------------------------------------
void __tsan_init(void) {} void __tsan_func_entry(void *) {} void __tsan_func_exit(void) {}
#define RW(N) void __tsan_read##N(void *p) { acc(p, N, false, PC); } void __tsan_write##N(void *p) { acc(p, N, true, PC); } \
 void __tsan_unaligned_read##N(void *p) { acc(p, N, false, PC); } void __tsan_unaligned_write##N(void *p) { acc(p, N, true, PC); } \
 void __tsan_volatile_read##N(void *p) { acc(p, N, false, PC); } void __tsan_volatile_write##N(void *p) { acc(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { acc(p, n, false, PC); } void __tsan_write_range(void *p, unsigned long n) { acc(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) acc(p, 8, true, PC); } void __tsan_vptr_read(void **p) { acc(p, 8, false, PC); }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); void __real_free(void *); void *__real_realloc(void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { acc(s, n, false, PC); acc(d, n, true, PC); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { acc(s, n, false, PC); acc(d, n, true, PC); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { acc(d, n, true, PC); return __real_memset(d, c, n); }
void __wrap_free(void *p) { erase(p); __real_free(p); }
void *__wrap_realloc(void *p, size_t n) { erase(p); return __real_realloc(p, n); }
}
void operator delete(void *p) noexcept { erase(p); __real_free(p); }
void operator delete[](void *p) noexcept { erase(p); __real_free(p); }
void operator delete(void *p, size_t) noexcept { erase(p); __real_free(p); }
void operator delete[](void *p, size_t) noexcept { erase(p); __real_free(p); }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
// atomics: sequential execution under the token; ordering effects by memory order
namespace {
enum { RLX, CNS, ACQ, REL, AR, SC };
void at_pre(void *p, size_t n, bool w, int mo, const void *pc) {
  if (!tracking()) return; choice(); Quiet q; Sync &s = syncs[p];
  if (mo != RLX && mo != REL) th[me].vc.join(s.vc);
  touch((uintptr_t)p, n, w, true, pc);
  if (w && mo != RLX && mo != ACQ && mo != CNS) { s.vc.join(th[me].vc); th[me].vc.c[me]++; }
}
}
extern "C" {
#define AT(B, TY) \
TY __tsan_atomic##B##_load(const volatile TY *p, int m) { at_pre((void *)p, sizeof(TY), false, m, PC); return *p; } \
void __tsan_atomic##B##_store(volatile TY *p, TY v, int m) { at_pre((void *)p, sizeof(TY), true, m, PC); *p = v; } \
TY __tsan_atomic##B##_exchange(volatile TY *p, TY v, int m) { at_pre((void *)p, sizeof(TY), true, m, PC); TY o = *p; *p = v; return o; } \
TY __tsan_atomic##B##_fetch_add(volatile TY *p, TY v, int m) { at_pre((void *)p, sizeof(TY), true, m, PC); TY o = *p; *p = o + v; return o; } \
TY __tsan_atomic##B##_fetch_sub(volatile TY *p, TY v, int m) { at_pre((void *)p, sizeof(TY), true, m, PC); TY o = *p; *p = o - v; return o; } \
TY __tsan_atomic##B##_fetch_and(volatile TY *p, TY v, int m) { at_pre((void *)p, sizeof(TY), true, m, PC); TY o = *p; *p = o & v; return o; } \
TY __tsan_atomic##B##_fetch_or(volatile TY *p, TY v, int m) { at_pre((void *)p, sizeof(TY), true, m, PC); TY o = *p; *p = o | v; return o; } \
TY __tsan_atomic##B##_fetch_xor(volatile TY *p, TY v, int m) { at_pre((void *)p, sizeof(TY), true, m, PC); TY o = *p; *p = o ^ v; return o; } \
TY __tsan_atomic##B##_fetch_nand(volatile TY *p, TY v, int m) { at_pre((void *)p, sizeof(TY), true, m, PC); TY o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int m, int) { at_pre((void *)p, sizeof(TY), true, m, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int m, int) { at_pre((void *)p, sizeof(TY), true, m, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
TY __tsan_atomic##B##_compare_exchange_val(volatile TY *p, TY e, TY v, int m, int) { at_pre((void *)p, sizeof(TY), true, m, PC); TY o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
int __real___cxa_guard_acquire(void *); void __real___cxa_guard_release(void *);
int __wrap___cxa_guard_acquire(void *g) { int r = __real___cxa_guard_acquire(g); if (!r && tracking()) { Quiet q; th[me].vc.join(syncs[g].vc); } return r; }
void __wrap___cxa_guard_release(void *g) { if (tracking()) { Quiet q; Sync &s = syncs[g]; s.vc.join(th[me].vc); th[me].vc.c[me]++; } __real___cxa_guard_release(g); }
}
