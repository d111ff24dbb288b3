// A thread runtime under full control.  A parallel region runs its threads as coroutines; they only change over at
// synchronisations, and at each of these every choice of the next thread is followed (the process forks), the memory a
// region has written being compared at its end.  Between synchronisations the order of the threads does not matter unless
// they conflict, and conflicts are found from the accesses the compiler reports: two accesses to the same byte, one of them
// a write, neither ordered before the other by the synchronisations made so far.
// Compiled without instrumentation; nothing here may be called by the threads except through the functions below.
#include "omprt.h"
#include <malloc.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <map>
#include <vector>
#include <algorithm>
#include <functional>
#include <new>

#define MAXT 8
extern "C" { void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); int __real_posix_memalign(void**, size_t, size_t); void __real_free(void*); }

namespace {
int P_threads = 1, P_team = 0, P_order = 0, P_explore = 0, P_split = 0;
VftStats S;
bool active = false;                 // code of a region's thread is running
const size_t STACK = 4u << 20;
enum State { RUN, LOCK, ATOMIC, BARRIER, DONE };
struct VC { uint32_t c[MAXT]; VC() { for (int i = 0; i < MAXT; ++i) c[i] = 0; } void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Loop { bool open = false; bool ull = false; long next = 0, end = 0, incr = 1, chunk = 1; int kind = 0; };
struct Thread { ucontext_t ctx; char* stack = 0; State st = DONE; const void* want = 0; VC vc; int loops = 0, singles = 0, sections = 0, nested = 0; };
Thread T[MAXT]; ucontext_t sched; int cur = -1, n = 0; bool inRegion = false;
struct LockRec { int owner = -1, depth = 0; VC vc; };
std::map<const void*, LockRec>* locks; std::map<const void*, VC>* syncs;
std::map<int, Loop>* loops; std::map<int, int>* singles; std::map<int, int>* sections; VC barrierVC;
std::function<void(int)>* body;
bool dead = false;
// ---- forking exploration
struct Rec { int kind; uint64_t digest; char msg[400]; };    // kind 0: end of a region, 1: report
const int MAXFORKS = 800;
bool forked = false, exploring = false; int deviations = 0; pid_t owner = 0; struct Shared { int forks, n; Rec r[2 * MAXFORKS]; } *shared;     // shared with the children, one at a time
void deliver(const Rec& r) { int k = __atomic_fetch_add(&shared->n, 1, __ATOMIC_SEQ_CST); if (k < 2 * MAXFORKS) __real_memcpy(&shared->r[k], &r, sizeof r); }
// ---- memory
struct Entry { uint32_t clk; uint8_t tid, mask, kind; int next; };      // kind: 1 write, 2 atomic
struct Cell { uintptr_t key; uint32_t gen; int head; };
const size_t CELLS = 1u << 20; Cell* cells; uint32_t gen = 0; std::vector<Entry>* pool; std::vector<uint32_t>* used;
std::vector<std::pair<uintptr_t, uintptr_t>>* fresh;     // blocks made within the region
bool reported;

void report(const char* kind, const char* msg) {
  bool a = active; active = false;
  if (forked) { Rec r; memset(&r, 0, sizeof r); r.kind = 1; snprintf(r.msg, sizeof r.msg, "%s|%s", kind, msg); deliver(r); }
  else vft_report(kind, msg);
  active = a;
}
const char* where(void* pc, char* buf, size_t len) {
  Dl_info i; if (dladdr(pc, &i) && i.dli_sname) { int st; char* d = abi::__cxa_demangle(i.dli_sname, 0, 0, &st); snprintf(buf, len, "%.150s", d ? d : i.dli_sname); __real_free(d); } else snprintf(buf, len, "+0x%lx", dladdr(pc, &i) ? (unsigned long)((char*)pc - (char*)i.dli_fbase) : 0ul);
  return buf;
}
Cell* cell(uintptr_t g, bool make) {
  size_t h = (g * 0x9E3779B97F4A7C15ull) >> 44;
  for (size_t k = 0; k < CELLS; ++k, h = (h + 1) & (CELLS - 1)) { Cell& c = cells[h];
    if (c.gen != gen) { if (!make) return 0; c.gen = gen; c.key = g; c.head = -1; used->push_back((uint32_t)h); if (used->size() > CELLS * 3 / 4) { fprintf(stderr, "omprt: region touches too much memory\n"); _exit(91); } return &c; }
    if (c.key == g) return &c; }
  _exit(91);
}
void touch(uintptr_t g, uint8_t mask, int kind, void* pc) {
  Thread& t = T[cur]; uint32_t clk = t.vc.c[cur]; Cell* c = cell(g, true); int* link = &c->head; bool mine = false;
  while (*link >= 0) { Entry& e = (*pool)[*link];
    if (e.tid == cur) { if (e.kind == kind && e.clk == clk && (e.mask & mask) == mask) mine = true; else if (e.kind == kind && (mask & e.mask) == e.mask) { *link = e.next; continue; } }
    else if ((e.mask & mask) && ((e.kind | kind) & 1) && !((e.kind & kind) & 2)) { S.pairs++; if (e.clk > t.vc.c[e.tid] && !reported) { reported = true; char b[200], m[380]; snprintf(m, sizeof m, "threads %d (%s) and %d (%s) of %d use the same byte without an order between them, in %s", e.tid, e.kind & 1 ? "write" : "read", cur, kind & 1 ? "write" : "read", n, where(pc, b, sizeof b)); report("race", m); } }
    link = &e.next; }
  if (!mine) { pool->push_back(Entry{clk, (uint8_t)cur, mask, (uint8_t)kind, c->head}); c->head = (int)pool->size() - 1; }
}
inline bool ownStack(uintptr_t a) { return cur >= 0 && a - (uintptr_t)T[cur].stack < STACK; }
void access(const void* p, size_t len, int kind, void* pc) {
  if (!active || !len) return;
  active = false; S.accesses++;
  uintptr_t a = (uintptr_t)p, z = a + len;
  while (a < z) { uintptr_t g = a >> 3; unsigned lo = a & 7, hi = (z >> 3) > g ? 8 : (z & 7); touch(g, (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1)), kind, pc); a = (g + 1) << 3; }
  active = true;
}
void newBlock(void* p, size_t k) { if (!active || !p) return; active = false; k = malloc_usable_size(p); uintptr_t a = (uintptr_t)p, z = a + k; fresh->push_back(std::make_pair(a, z)); for (uintptr_t g = a >> 3; g <= (z - 1) >> 3; ++g) if (Cell* c = cell(g, false)) c->head = -1; active = true; }
void goneBlock(void* p, void* pc) { size_t k = malloc_usable_size(p); access(p, k, 1, pc); active = false; fresh->push_back(std::make_pair((uintptr_t)p, (uintptr_t)p + k)); active = true; }
// ---- scheduling
void stop(State s, const void* what) { T[cur].st = s; T[cur].want = what; active = false; swapcontext(&T[cur].ctx, &sched); active = true; }
void trampoline(int id) { active = true; (*body)(id); active = false; T[id].st = DONE; swapcontext(&T[id].ctx, &sched); abort(); }
void go(int t) { cur = t; T[t].st = RUN; swapcontext(&sched, &T[t].ctx); active = false; cur = -1; }
uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xFF51AFD7ED558CCDull; return h ^ (h >> 29); }
// what the region has written outside its threads' stacks and outside the blocks made within it
uint64_t digest() {
  std::vector<std::pair<uintptr_t, uint8_t>> w;
  for (uint32_t h : *used) { Cell& c = cells[h]; uint8_t m = 0; for (int e = c.head; e >= 0; e = (*pool)[e].next) if ((*pool)[e].kind & 1) m |= (*pool)[e].mask; if (m) w.push_back(std::make_pair(c.key, m)); }
  std::sort(w.begin(), w.end()); std::vector<std::pair<uintptr_t, uintptr_t>> f = *fresh; std::sort(f.begin(), f.end()); size_t k = 0; uintptr_t cover = 0; uint64_t h = 17;
  for (auto& x : w) { uintptr_t a = x.first << 3; bool skip = false; for (int t = 0; t < n; ++t) if (a - (uintptr_t)T[t].stack < STACK) skip = true;
    while (k < f.size() && f[k].first <= a + 7) { cover = std::max(cover, f[k].second); ++k; } if (a < cover) skip = true; if (skip) continue;
    h = mix(h, x.first); for (int b = 0; b < 8; ++b) if (x.second >> b & 1) h = mix(h, ((unsigned char*)a)[b]); }
  return h;
}
// one of k possibilities: every other one is followed by a child of its own up to the end of the region
int choose(int k) {
  if (k <= 1) return 0; S.choices++;
  if (!P_explore) return P_order ? k - 1 : 0;
  if (!forked && owner != getpid()) { shared = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); owner = getpid(); }
  if (!exploring) { exploring = true; shared->forks = shared->n = 0; }
  for (int a = 1; a < k; ++a) {
    if (deviations >= 6 || shared->forks >= MAXFORKS) { if (!forked) S.capped++; break; }
    shared->forks++; pid_t p = fork();
    if (p == 0) { forked = true; ++deviations; alarm(60); return a; }
    int st = 0; if (p > 0) waitpid(p, &st, 0); if (p > 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { char m[200]; snprintf(m, sizeof m, "a region does not end under another order of its threads (status %x)", st); report("order", m); }
    S.schedules++;
  }
  return 0;
}
void schedule() {
  int order[MAXT]; for (int i = 0; i < n; ++i) order[i] = P_order ? n - 1 - i : i;
  for (;;) {
    for (int i = 0; i < n; ++i) if (T[order[i]].st == RUN) { go(order[i]); }
    std::vector<int> en; bool allDone = true, anyBarrier = false;
    for (int i = 0; i < n; ++i) { Thread& t = T[i]; if (t.st == DONE) continue; allDone = false; if (t.st == ATOMIC || (t.st == LOCK && (*locks)[t.want].owner < 0)) en.push_back(i); if (t.st == BARRIER) anyBarrier = true; }
    if (allDone) return;
    if (!en.empty()) { S.syncs++; int t = en[choose((int)en.size())]; go(t); continue; }
    bool all = anyBarrier; for (int i = 0; i < n; ++i) if (T[i].st != BARRIER) all = false;
    if (!all) { report("deadlock", "the threads of a region wait for each other for ever"); if (forked) _exit(0); dead = true; fflush(0); _exit(92); }
    S.syncs++; VC m; for (int i = 0; i < n; ++i) m.join(T[i].vc); for (int i = 0; i < n; ++i) { T[i].vc = m; T[i].vc.c[i]++; T[i].st = RUN; }
  }
}
void init() {
  if (cells) return;
  cells = (Cell*)mmap(0, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < MAXT; ++i) T[i].stack = (char*)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  locks = new std::map<const void*, LockRec>; syncs = new std::map<const void*, VC>; loops = new std::map<int, Loop>; singles = new std::map<int, int>; sections = new std::map<int, int>;
  pool = new std::vector<Entry>; used = new std::vector<uint32_t>; fresh = new std::vector<std::pair<uintptr_t, uintptr_t>>;
}
void region(const std::function<void(int)>& f, int want) {
  init(); bool was = active; active = false;
  if (inRegion) { int c = cur; active = was; f(0); (void)c; return; }    // nested regions have one thread
  inRegion = true; S.regions++; n = P_team ? std::min(P_team, P_threads) : P_threads; if (want > 0) n = std::min(want, MAXT); if (n > MAXT) n = MAXT;
  if (++gen == 0) gen = 1; pool->clear(); used->clear(); fresh->clear(); locks->clear(); syncs->clear(); loops->clear(); singles->clear(); sections->clear(); reported = false; deviations = 0;
  std::function<void(int)> g = f; body = &g;
  for (int i = 0; i < n; ++i) { Thread& t = T[i]; t.vc = VC(); t.vc.c[i] = 1; t.loops = t.singles = t.sections = t.nested = 0; t.st = RUN; t.want = 0; getcontext(&t.ctx); t.ctx.uc_stack.ss_sp = t.stack; t.ctx.uc_stack.ss_size = STACK; t.ctx.uc_link = 0; makecontext(&t.ctx, (void (*)())trampoline, 1, i); }
  schedule();
  S.schedules++;
  if (forked) { Rec r; memset(&r, 0, sizeof r); r.digest = digest(); deliver(r); _exit(0); }
  if (exploring) { uint64_t d = digest(); bool bad = false; exploring = false;
    for (int k = 0; k < shared->n && k < 2 * MAXFORKS; ++k) { Rec r = shared->r[k]; if (r.kind == 1) { char* m = strchr(r.msg, '|'); if (m) { *m = 0; report(r.msg, m + 1); } } else if (r.digest != d && !bad) { bad = true; report("order", "what a region leaves in memory depends on the order of its threads"); } } }
  inRegion = false; active = false; cur = -1;
}
void lockOn(const void* key) { LockRec& l = (*locks)[key]; if (l.owner == cur) { l.depth++; return; } stop(LOCK, key); active = false; LockRec& m = (*locks)[key]; m.owner = cur; m.depth = 1; T[cur].vc.join(m.vc); }
void lockOff(const void* key) { LockRec& l = (*locks)[key]; if (--l.depth > 0) return; l.owner = -1; l.vc.join(T[cur].vc); T[cur].vc.c[cur]++; }
struct Out { bool a; Out() : a(active) { active = false; } ~Out() { active = a; } };
const char unnamed = 0, atom = 0;
bool isNested() { return cur >= 0 && T[cur].nested; }
bool take(Loop& l, long* a, long* b) {
  if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false; long left = (l.end - l.next + l.incr - (l.incr > 0 ? 1 : -1)) / l.incr, k = l.chunk > 0 ? l.chunk : 1; if (l.kind == 1) { long q = (left + n - 1) / n; if (q > k) k = q; } if (k > left) k = left;
  *a = l.next; l.next += k * l.incr; *b = l.next; return true;
}
bool loopNext(long* a, long* b) { Out o; int id = T[cur].loops - 1; stop(ATOMIC, 0); active = false; return take((*loops)[id], a, b); }
bool loopStart(int kind, long s, long e, long i, long c, long* a, long* b) { Out o; int id = T[cur].loops++; Loop& l = (*loops)[id]; if (!l.open) { l.open = true; l.next = s; l.end = e; l.incr = i; l.chunk = c; l.kind = kind; } stop(ATOMIC, 0); active = false; return take((*loops)[id], a, b); }
void doBarrier() { if (!inRegion || cur < 0) return; Out o; stop(BARRIER, 0); active = false; }
}

extern "C" {
void vft_policy(int t, int team, int order, int explore) { P_threads = t > MAXT ? MAXT : t; P_team = team; P_order = order; P_explore = explore; init(); }
void vft_split(int k) { P_split = k; }
VftStats vft_stats(void) { return S; }
void vft_reset_stats(void) { memset(&S, 0, sizeof S); }

// ---- OpenMP
int omp_get_max_threads(void) { return P_threads; }
int omp_get_num_threads(void) { return inRegion && !isNested() ? n : 1; }
int omp_get_thread_num(void) { return inRegion && cur >= 0 && !isNested() ? cur : 0; }
int omp_in_parallel(void) { return inRegion; }
int omp_get_num_procs(void) { return P_threads; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_dynamic(void) { return P_team != 0; }
void omp_set_dynamic(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_level(void) { return inRegion; }
int omp_get_active_level(void) { return inRegion; }
void omp_set_num_threads(int k) { if (k > 0) P_threads = k > MAXT ? MAXT : k; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void* l) { *(int*)l = 0; }
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { if (!inRegion) return; Out o; lockOn(l); }
void omp_unset_lock(void* l) { if (!inRegion) return; Out o; lockOff(l); }
int omp_test_lock(void* l) { if (!inRegion) return 1; Out o; stop(ATOMIC, 0); active = false; LockRec& r = (*locks)[l]; if (r.owner >= 0) return 0; r.owner = cur; r.depth = 1; T[cur].vc.join(r.vc); return 1; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) {
  if (inRegion) { int me = cur; T[me].nested++; fn(data); T[me].nested--; return; }
  region([=](int) { fn(data); }, (int)nt);
}
void GOMP_barrier(void) { if (!isNested()) doBarrier(); }
void GOMP_critical_start(void) { if (!inRegion) return; Out o; lockOn(&unnamed); }
void GOMP_critical_end(void) { if (!inRegion) return; Out o; lockOff(&unnamed); }
void GOMP_critical_name_start(void** p) { if (!inRegion) return; Out o; lockOn(p); }
void GOMP_critical_name_end(void** p) { if (!inRegion) return; Out o; lockOff(p); }
void GOMP_atomic_start(void) { if (!inRegion) return; Out o; lockOn(&atom + 1); }
void GOMP_atomic_end(void) { if (!inRegion) return; Out o; lockOff(&atom + 1); }
bool GOMP_single_start(void) { if (!inRegion || isNested()) return true; Out o; int id = T[cur].singles++; stop(ATOMIC, 0); active = false; return (*singles)[id]++ == 0; }
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
#define VF_LOOPS(NAME, KIND) \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { return loopStart(KIND, s, e, i, c, a, b); } \
  bool GOMP_loop_##NAME##_next(long* a, long* b) { return loopNext(a, b); } \
  bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { (void)up; return loopStart(KIND, (long)s, (long)e, (long)i, (long)c, (long*)a, (long*)b); } \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b) { return loopNext((long*)a, (long*)b); }
#define VF_PLOOPS(NAME, KIND) \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned nt, long s, long e, long i, long c, unsigned) { region([=](int) { { Out o; Loop& l = (*loops)[0]; if (!l.open) { l.open = true; l.next = s; l.end = e; l.incr = i; l.chunk = c; l.kind = KIND; } T[cur].loops = 1; } fn(data); }, (int)nt); }
VF_LOOPS(dynamic, 0) VF_LOOPS(guided, 1) VF_LOOPS(nonmonotonic_dynamic, 0) VF_LOOPS(nonmonotonic_guided, 1)
VF_PLOOPS(dynamic, 0) VF_PLOOPS(guided, 1) VF_PLOOPS(nonmonotonic_dynamic, 0) VF_PLOOPS(nonmonotonic_guided, 1)
#define VF_RLOOPS(NAME) \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { return loopStart(0, s, e, i, 1, a, b); } \
  bool GOMP_loop_##NAME##_next(long* a, long* b) { return loopNext(a, b); } \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned nt, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, nt, s, e, i, 1, f); }
VF_RLOOPS(runtime) VF_RLOOPS(nonmonotonic_runtime) VF_RLOOPS(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { doBarrier(); }
void GOMP_loop_end_nowait(void) {}
unsigned GOMP_sections_start(unsigned count) { Out o; int id = T[cur].sections++; (void)id; stop(ATOMIC, 0); active = false; int k = ++(*sections)[id]; return k <= (int)count ? (unsigned)k : (*sections)[-1 - id] = count, (k <= (int)count ? (unsigned)k : 0u); }
void GOMP_sections_end(void) { doBarrier(); }
void GOMP_sections_end_nowait(void) {}

// ---- QMT
int qmt_init(void) { return 0; }
int qmt_finalize(void) { return 0; }
int qmt_num_threads(void) { return P_threads; }
int qmt_thread_num(void) { return inRegion && cur >= 0 ? cur : 0; }
int qmt_call(void (*f)(unsigned long, unsigned long, int, void*), unsigned long count, void* arg) {
  region([=](int id) { unsigned long lo = count * id / n, hi = count * (id + 1) / n; if (P_split == 1) { lo = id == n - 1 ? 0 : count; hi = count; } if (P_split == 2) { lo = id ? count : 0; hi = count; } f(lo, hi, id, arg); }, 0); return 0;
}

// ---- accesses, as the compiler reports them
#define RA __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define VF_RW(N) \
  void __tsan_read##N(void* p) { access(p, N, 0, RA); } void __tsan_write##N(void* p) { access(p, N, 1, RA); } \
  void __tsan_unaligned_read##N(void* p) { access(p, N, 0, RA); } void __tsan_unaligned_write##N(void* p) { access(p, N, 1, RA); } \
  void __tsan_volatile_read##N(void* p) { access(p, N, 0, RA); } void __tsan_volatile_write##N(void* p) { access(p, N, 1, RA); } \
  void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, 0, RA); } void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, 1, RA); }
VF_RW(1) VF_RW(2) VF_RW(4) VF_RW(8) VF_RW(16)
void __tsan_read_range(void* p, unsigned long k) { access(p, k, 0, RA); }
void __tsan_write_range(void* p, unsigned long k) { access(p, k, 1, RA); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, 1, RA); }
void __tsan_vptr_read(void** p) { access(p, 8, 0, RA); }
}
namespace {
// memory order 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
void atomicStop() { if (active && inRegion && cur >= 0) { Out o; stop(ATOMIC, 0); active = false; } }
void acq(const void* p, int mo) { if (active && (mo == 1 || mo == 2 || mo >= 4)) { Out o; T[cur].vc.join((*syncs)[p]); } }
void rel(const void* p, int mo) { if (active && mo >= 3) { Out o; (*syncs)[p].join(T[cur].vc); T[cur].vc.c[cur]++; } }
}
extern "C" {
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// (a byte that is set is taken for the guard of a function-local static, which never changes again: no choice there)
#define VF_AT(B, T_) \
  T_ __tsan_atomic##B##_load(const volatile T_* p, int mo) { if (B != 8 || !*p) atomicStop(); access((const void*)p, sizeof(T_), 2, RA); acq((const void*)p, mo); return *p; } \
  void __tsan_atomic##B##_store(volatile T_* p, T_ v, int mo) { atomicStop(); access((const void*)p, sizeof(T_), 3, RA); rel((const void*)p, mo); *p = v; } \
  T_ __tsan_atomic##B##_exchange(volatile T_* p, T_ v, int mo) { atomicStop(); access((const void*)p, sizeof(T_), 3, RA); acq((const void*)p, mo); rel((const void*)p, mo); T_ o = *p; *p = v; return o; } \
  T_ __tsan_atomic##B##_fetch_add(volatile T_* p, T_ v, int mo) { atomicStop(); access((const void*)p, sizeof(T_), 3, RA); acq((const void*)p, mo); rel((const void*)p, mo); T_ o = *p; *p = o + v; return o; } \
  T_ __tsan_atomic##B##_fetch_sub(volatile T_* p, T_ v, int mo) { atomicStop(); access((const void*)p, sizeof(T_), 3, RA); acq((const void*)p, mo); rel((const void*)p, mo); T_ o = *p; *p = o - v; return o; } \
  T_ __tsan_atomic##B##_fetch_and(volatile T_* p, T_ v, int mo) { atomicStop(); access((const void*)p, sizeof(T_), 3, RA); acq((const void*)p, mo); rel((const void*)p, mo); T_ o = *p; *p = o & v; return o; } \
  T_ __tsan_atomic##B##_fetch_or(volatile T_* p, T_ v, int mo) { atomicStop(); access((const void*)p, sizeof(T_), 3, RA); acq((const void*)p, mo); rel((const void*)p, mo); T_ o = *p; *p = o | v; return o; } \
  T_ __tsan_atomic##B##_fetch_xor(volatile T_* p, T_ v, int mo) { atomicStop(); access((const void*)p, sizeof(T_), 3, RA); acq((const void*)p, mo); rel((const void*)p, mo); T_ o = *p; *p = o ^ v; return o; } \
  T_ __tsan_atomic##B##_fetch_nand(volatile T_* p, T_ v, int mo) { atomicStop(); access((const void*)p, sizeof(T_), 3, RA); acq((const void*)p, mo); rel((const void*)p, mo); T_ o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T_* p, T_* c, T_ v, int mo, int fmo) { atomicStop(); access((const void*)p, sizeof(T_), 3, RA); if (*p == *c) { acq((const void*)p, mo); rel((const void*)p, mo); *p = v; return 1; } acq((const void*)p, fmo); *c = *p; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T_* p, T_* c, T_ v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, fmo); } \
  T_ __tsan_atomic##B##_compare_exchange_val(volatile T_* p, T_ c, T_ v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(p, &c, v, mo, fmo); return c; }
VF_AT(8, uint8_t) VF_AT(16, uint16_t) VF_AT(32, uint32_t) VF_AT(64, uint64_t)

// ---- library functions that touch memory
void* __wrap_memcpy(void* d, const void* s, size_t k) { if (active) { access(s, k, 0, RA); access(d, k, 1, RA); } return __real_memcpy(d, s, k); }
void* __wrap_memmove(void* d, const void* s, size_t k) { if (active) { access(s, k, 0, RA); access(d, k, 1, RA); } return __real_memmove(d, s, k); }
void* __wrap_memset(void* d, int c, size_t k) { if (active) access(d, k, 1, RA); return __real_memset(d, c, k); }
void* __wrap_malloc(size_t k) { void* p = __real_malloc(k); if (active) newBlock(p, k); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); if (active) newBlock(p, a * b); return p; }
void* __wrap_realloc(void* q, size_t k) { void* p = __real_realloc(q, k); if (active) newBlock(p, k); return p; }
int __wrap_posix_memalign(void** p, size_t al, size_t k) { int r = __real_posix_memalign(p, al, k); if (active && !r) newBlock(*p, k); return r; }
void __wrap_free(void* p) { if (active && p) goneBlock(p, RA); __real_free(p); }
// function-local statics
int __wrap___cxa_guard_acquire(uint64_t* g) { if (!inRegion || cur < 0) { if (*(char*)g) return 0; return 1; } Out o; lockOn(g); if (*(char*)g) { lockOff(g); return 0; } return 1; }
void __wrap___cxa_guard_release(uint64_t* g) { *(char*)g = 1; if (!inRegion || cur < 0) return; Out o; (*syncs)[g].join(T[cur].vc); lockOff(g); }
void __wrap___cxa_guard_abort(uint64_t* g) { if (!inRegion || cur < 0) return; Out o; lockOff(g); }
}
#define WEAK __attribute__((weak))
static void* vnew(size_t k) { void* p = __real_malloc(k ? k : 1); if (!p) throw std::bad_alloc(); if (active) newBlock(p, k ? k : 1); return p; }
static void vdel(void* p) { if (active && p) goneBlock(p, __builtin_return_address(0)); __real_free(p); }
WEAK void* operator new(size_t k) { return vnew(k); }
WEAK void* operator new[](size_t k) { return vnew(k); }
WEAK void* operator new(size_t k, const std::nothrow_t&) noexcept { return vnew(k); }
WEAK void* operator new[](size_t k, const std::nothrow_t&) noexcept { return vnew(k); }
WEAK void operator delete(void* p) noexcept { vdel(p); }
WEAK void operator delete[](void* p) noexcept { vdel(p); }
WEAK void operator delete(void* p, size_t) noexcept { vdel(p); }
WEAK void operator delete[](void* p, size_t) noexcept { vdel(p); }
