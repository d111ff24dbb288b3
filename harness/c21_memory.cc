// C21: every history of allocation requests and of field lifetimes; raw memory is handed out by an arena at every misalignment.
#include "arena.h"
#include "lat.h"
using namespace QDP; using namespace vf;
static Arena heap; static bool armed = false; static int failAt = -1, req = 0; static bool failed = false;
static bool fails() { if (!armed) return false; if (req++ == failAt) { failed = true; return true; } return false; }
#ifndef QDP_USE_TBBPOOL_ALLOCATOR
void* operator new(size_t n) { if (fails()) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { if (fails()) throw std::bad_alloc(); void* p = armed ? heap.get(n) : 0; if (!p) p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (heap.has(p)) heap.put(p); else free(p); }
void operator delete[](void* p) noexcept { if (heap.has(p)) heap.put(p); else free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete[](p); }
static Arena* raw() { return &heap; }
enum { POOL = 0 };
#elif defined(REAL_TBB)
static Arena* raw() { return nullptr; }
enum { POOL = 2 };
#else
static Arena* raw() { return tbb::fixed_pool::last() ? &tbb::fixed_pool::last()->a : nullptr; }
enum { POOL = 1 };
#endif
static auto& A() { return Allocator::theQDPAllocator::Instance(); }
enum { AL = QDP_ALIGNMENT_SIZE };
static std::vector<long> positions(long n) { std::vector<long> p; for (long i = 0; i < n; i += (n > 600 && i >= 130 && i < n - 130) ? 4093 : 1) p.push_back(i); return p; }
struct Blk { unsigned char* p; long n; int tag; };
static bool blocks(const std::vector<Blk>& v, const std::string& in) { eval(); for (size_t i = 0; i < v.size(); ++i) { if (!check((uintptr_t)v[i].p % AL == 0, "block not aligned", in)) return false; if (raw() && raw()->has(v[i].p) && !check(raw()->inside(v[i].p, v[i].n), "block reaches outside the memory obtained for it", in)) return false; for (size_t j = 0; j < i; ++j) if (!check(v[i].p != v[j].p && (v[i].p + v[i].n <= v[j].p || v[j].p + v[j].n <= v[i].p), "live blocks overlap", in)) return false; for (long q : positions(v[i].n)) if (!check(v[i].p[q] == (unsigned char)(v[i].tag * 37 + q), "block contents changed", in)) return false; } return true; }
// ---- all sequences of requests and releases, replayed from the start; every raw request may be made to fail
static void requests(const std::vector<long>& sizes, int depth, unsigned off, int part, int parts) { if (raw()) raw()->off = off; const int S = sizes.size(), F = POOL ? 0 : 2; long bad0 = raw() ? raw()->bad : 0; int nb0 = raw() ? raw()->nb : 0;
  std::vector<int> ch, of; bool ok = true;
  do { std::vector<Blk> live; std::string in = fmt("memory at offset %u:", off); trace(); bool skip = false; int leaks = 0;
    for (int d = 0; d < depth && ok && !skip; ++d) { const int n = S * (1 + F) + live.size(); if ((int)ch.size() == d) { ch.push_back(d ? 0 : part); of.push_back(n); } const int c = ch[d]; transition();
      if (c < S * (1 + F)) { const long sz = sizes[c % S]; const int fl = c / S - 1; in += fmt(fl < 0 ? " get %ld" : " get %ld with raw request %d failing", sz, fl); cur(in); failAt = fl; req = 0; failed = false; armed = true; int before = raw() ? raw()->nb : 0; unsigned char* p = 0; bool threw = false; try { p = (unsigned char*)A().allocate(sz, d & 1 ? Allocator::FAST : Allocator::DEFAULT); } catch (std::bad_alloc&) { threw = true; } armed = false; failAt = -1; eval();
        if (fl >= 0 && !failed) { skip = true; }
        if (failed) { ok = check(threw, "a failing request is not reported", in); if (raw()) leaks += raw()->nb - before; } else if (threw) { if (!POOL) ok = check(false, "request refused", in); } else ok = check(p, "null block returned", in);
        if (ok && !threw) { Blk b{p, sz, d + 1}; if (raw() && raw()->has(p)) ok = check(raw()->inside(p, sz), "block reaches outside the memory obtained for it", in); for (auto& o : live) ok = ok && check(p != o.p && (p + sz <= o.p || o.p + o.n <= p), "live blocks overlap", in); if (ok) { for (long q : positions(sz)) p[q] = (unsigned char)(b.tag * 37 + q); live.push_back(b); } } }
      else { int k = c - S * (1 + F); if (k >= (int)live.size()) { skip = true; break; } in += fmt(" release %d", k); cur(in); Blk b = live[k]; live.erase(live.begin() + k); armed = true; A().free(b.p); armed = false; if (raw()) ok = check(raw()->bad == bad0, "a block is released twice or never obtained", in); }
      ok = ok && blocks(live, in); uint64_t h = off; for (auto& b : live) h = hash(&b.n, sizeof b.n, h); state(h); }
    armed = true; for (auto& b : live) A().free(b.p); armed = false; if (ok && raw()) ok = check(raw()->bad == bad0 && raw()->nb - nb0 == leaks, "memory not returned exactly once", in); if (raw()) { nb0 = raw()->nb; if (nb0 > 100) { raw()->nb = 0; nb0 = 0; } }
    while (!ch.empty()) { int step = ch.size() == 1 ? parts : 1; if ((ch.back() += step) < of.back()) break; ch.pop_back(); of.pop_back(); } } while (ok && !ch.empty());
  sample(fmt("all request/release sequences of depth %d over %d sizes at offset %u", depth, S, off)); }
// without injected failures every byte comes back
static void returned(const std::vector<long>& sizes, unsigned off) { if (!raw()) return; raw()->off = off; const int S = sizes.size(); for (int a = 0; a < S; ++a) for (int b = 0; b < S; ++b) for (int c = 0; c < S; ++c) for (int ord = 0; ord < 6; ++ord) { int nb = raw()->nb; long bad = raw()->bad; cur(fmt("return %d %d %d order %d", a, b, c, ord)); armed = true; void* p[3]; int ok = 0; try { p[0] = A().allocate(sizes[a], Allocator::DEFAULT); ++ok; p[1] = A().allocate(sizes[b], Allocator::DEFAULT); ++ok; p[2] = A().allocate(sizes[c], Allocator::DEFAULT); ++ok; } catch (std::bad_alloc&) {} static const int o[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; for (int i = 0; i < 3; ++i) if (o[ord][i] < ok) A().free(p[o[ord][i]]); armed = false; eval(); trace(); transition(6); check(raw()->nb == nb && raw()->bad == bad, "memory not returned exactly once", fmt("sizes %ld %ld %ld order %d offset %u", sizes[a], sizes[b], sizes[c], ord, off)); } }
// ---- releases of what is not live are refused, or change nothing
static void misuse() { for (int c = 0; c < 4; ++c) { cur(fmt("misuse %d", c)); eval(); trace(); transition(); ChildResult r = child([&](int fd) { unsigned char* p = (unsigned char*)A().allocate(64, Allocator::DEFAULT); unsigned char* q = (unsigned char*)A().allocate(64, Allocator::DEFAULT); memset(q, 5, 64); if (c == 0) { A().free(p); A().free(p); } if (c == 1) A().free(p + AL); if (c == 2) { static double z; A().free(&z); } if (c == 3) A().free(nullptr); bool ok = true; for (int i = 0; i < 64; ++i) ok = ok && q[i] == 5; unsigned char* s = (unsigned char*)A().allocate(64, Allocator::DEFAULT); unsigned char* t = (unsigned char*)A().allocate(64, Allocator::DEFAULT); ok = ok && s != q && t != q && s != t; if (c) ok = ok && s != p && t != p; put(fd, ok ? "intact" : "damaged"); _exit(0); }); check(r.exited && (r.code || r.out == "intact"), "release of a block that is not live does damage", fmt("case %d exit %d signal %d %s", c, r.code, r.sig, r.out.c_str())); } }
static void huge() { for (size_t n : {(size_t)-1, (size_t)-2, (size_t)-AL, (size_t)-AL - 1, (size_t)1 << 63, ((size_t)1 << 63) - 1, (size_t)1 << 62, (size_t)1 << 50}) { cur(fmt("request %zu", n)); eval(); trace(); transition(); bool threw = false; void* p = 0; try { p = A().allocate(n, Allocator::DEFAULT); } catch (std::bad_alloc&) { threw = true; } check(threw, "an impossible request is not refused", fmt("%zu bytes", n)); } }
// requests past 2^31 and 2^32 bytes (the memory is never touched in between), among small ones
static void giants() { if (POOL) return; const long G = 1l << 30; ChildResult r = child([&](int fd) { std::string bad; std::vector<long> sz{64, 2 * G - 1, 2 * G, 1, 2 * G + 7, 4 * G - 1, 4 * G, 4 * G + 1, 33, 5 * G + 100}; std::vector<unsigned char*> p; for (size_t i = 0; i < sz.size(); ++i) { try { p.push_back((unsigned char*)A().allocate(sz[i], Allocator::DEFAULT)); } catch (std::bad_alloc&) { put(fd, "out of memory"); _exit(0); } if ((uintptr_t)p[i] % AL) bad += fmt(" %ld not aligned", sz[i]); for (long at : {0l, sz[i] / 2, sz[i] - 1}) p[i][at] = i + 1; }
    for (size_t i = 0; i < sz.size(); ++i) { for (size_t j = 0; j < i; ++j) if (!(p[i] + sz[i] <= p[j] || p[j] + sz[j] <= p[i])) bad += fmt(" %ld and %ld overlap", sz[i], sz[j]); for (long at : {0l, sz[i] / 2, sz[i] - 1}) if (p[i][at] != i + 1 && sz[i] > 1) bad += fmt(" contents of %ld", sz[i]); } for (auto q : p) A().free(q); put(fd, bad.empty() ? "good" : bad); _exit(0); }, 60); cur("requests of gigabytes"); eval(10); trace(); transition(20); state(hash("giants")); check(r.exited && !r.code && (r.out == "good" || r.out == "out of memory"), "requests of gigabytes", fmt("exit %d signal %d %s", r.code, r.sig, r.out.c_str())); sample("requests of gigabytes: " + r.out); }
// very many live blocks
static void crowd() { const int N = POOL ? 400 : 70000; for (int ord = 0; ord < 4; ++ord) { std::string in = fmt("%d live blocks, order %d", N, ord); cur(in); trace(); std::vector<Blk> v; bool ok = true; for (int i = 0; i < N && ok; ++i) { long n = 1 + i * 37 % 193; unsigned char* p = 0; try { p = (unsigned char*)A().allocate(n, Allocator::DEFAULT); } catch (std::bad_alloc&) { break; } transition(); ok = check(p && (uintptr_t)p % AL == 0, "block not aligned", in); memset(p, i % 251, n); v.push_back({p, n, i % 251}); } eval(v.size()); auto intact = [&](const Blk& b) { for (long q = 0; q < b.n; ++q) if (b.p[q] != (unsigned char)b.tag) return false; return true; }; auto w = v; std::sort(w.begin(), w.end(), [](const Blk& a, const Blk& b) { return a.p < b.p; }); for (size_t i = 1; i < w.size() && ok; ++i) ok = check(w[i - 1].p + w[i - 1].n <= w[i].p, "live blocks overlap", in);
    const size_t M = v.size(); if (!M) continue; size_t step = 1; if (ord == 2) for (step = M / 3 + 1; std::__gcd(step, M) != 1; ++step) ; for (size_t i = 0; i < M && ok; ++i) { size_t k = ord == 0 ? i : ord == 1 ? M - 1 - i : ord == 2 ? i * step % M : (i % 2 ? M - 1 - i / 2 : i / 2); ok = check(intact(v[k]), "block contents changed", in + fmt(" block %zu", k)); transition(); A().free(v[k].p); } state(hash(in)); } sample(fmt("%d live blocks", N)); }
// ---- field lifetimes
template<class T> struct Fld { static const char* nm; };
template<class L> static void life(const char* nm, int depth, unsigned off, int part, int parts) { typedef std::remove_reference_t<decltype(std::declval<L&>().elem(0))> E; typedef OSubLattice<E> Sub; const int V = Layout::sitesOnNode(); if (raw()) raw()->off = off; armed = true;
  struct Cell { L* f = 0; Sub* s = 0; int sub = 0; std::vector<double> v; }; const int K = 3; const Subset* ss[2] = {&even, &rb[1]};
  auto put1 = [](E& e, double v) { int i = 0; words(e, [&](auto& w) { w = (std::remove_reference_t<decltype(w)>)(v + i); i = (i + 1) % 5; }); }; auto ok1 = [](const E& e, double v) { int i = 0; bool ok = true; words(const_cast<E&>(e), [&](auto& w) { ok = ok && w == (std::remove_reference_t<decltype(w)>)(v + i); i = (i + 1) % 5; }); return ok; };
  struct Op { int k, x, y; }; std::vector<Op> ops; for (int x = 0; x < K; ++x) { for (int k : {0, 1, 7, 9}) ops.push_back({k, x, 0}); for (int y = 0; y < K; ++y) { if (y != x) for (int k : {2, 4, 6}) ops.push_back({k, x, y}); ops.push_back({3, x, y}); } ops.push_back({5, x, 0}); ops.push_back({5, x, 1}); ops.push_back({8, x, (x + 1) % K}); }
  static const char* opn[] = {"new", "destroy", "copy", "assign", "subset of", "set subset", "assign from subset", "new of zero", "copy subset of", "write"};
  const int N = ops.size(); long tot = 1; for (int i = 0; i < depth; ++i) tot *= N; long bad0 = raw() ? raw()->bad : 0, nb0 = raw() ? raw()->nb : 0; bool ok = true;
  for (long q = part; q < tot && ok; q += parts) { Cell c[K]; trace(); std::string in = std::string(nm) + ":"; { long r = q; for (int i = 0; i < depth; ++i) { auto& o = ops[r % N]; r /= N; in += fmt(" %s(%c,%d)", opn[o.k], 'A' + o.x, o.y); } } cur(in); int fresh = 1; long r = q; auto drop = [&](int x) { delete c[x].f; delete c[x].s; c[x] = Cell(); };
    for (int i = 0; i < depth && ok; ++i) { auto& o = ops[r % N]; r /= N; transition(); Cell &d = c[o.x], &s = c[o.y];
      switch (o.k) { case 0: drop(o.x); d.f = new L; d.v.assign(V, 0); for (int j = 0; j < V; ++j) put1(d.f->elem(j), d.v[j] = fresh + j); fresh += V; break; case 1: drop(o.x); break;
        case 2: if (s.f) { L* n = new L(*s.f); std::vector<double> v = s.v; drop(o.x); d.f = n; d.v = v; } break; case 3: if (d.f && s.f) { *d.f = *s.f; d.v = s.v; } break;
        case 4: if (s.f) { Sub* n = new Sub(*ss[o.y & 1], *s.f); std::vector<double> v; for (int j = 0; j < ss[o.y & 1]->numSiteTable(); ++j) v.push_back(s.v[ss[o.y & 1]->siteTable()[j]]); drop(o.x); d.s = n; d.sub = o.y & 1; d.v = v; } break;
        case 5: { if (!d.s) { drop(o.x); d.s = new Sub; } d.s->setSubset(*ss[o.y]); d.sub = o.y; d.v.assign(ss[o.y]->numSiteTable(), 0); for (size_t j = 0; j < d.v.size(); ++j) put1(d.s->getF()[j], d.v[j] = fresh + j); fresh += V; } break;
        case 6: if (d.f && s.s) { *d.f = *s.s; for (size_t j = 0; j < s.v.size(); ++j) d.v[ss[s.sub]->siteTable()[j]] = s.v[j]; } break;
        case 7: drop(o.x); d.f = new L(zero); d.v.clear(); for (int j = 0; j < V; ++j) put1(d.f->elem(j), fresh + j), d.v.push_back(fresh + j); fresh += V; break;
        case 8: if (s.s) { Sub* n = new Sub(*s.s); auto v = s.v; int sb = s.sub; drop(o.x); d.s = n; d.v = v; d.sub = sb; } break;
        case 9: if (d.f) { for (int j = 0; j < V; ++j) put1(d.f->elem(j), d.v[j] = fresh + j); } else if (d.s) for (size_t j = 0; j < d.v.size(); ++j) put1(d.s->getF()[j], d.v[j] = fresh + j); fresh += V; break; }
      eval(); uint64_t h = hash(nm); std::vector<std::pair<uintptr_t, uintptr_t>> rg; for (int x = 0; x < K && ok; ++x) { E* p = c[x].f ? c[x].f->getF() : c[x].s ? c[x].s->getF() : nullptr; if (!p) { h = h * 31 + 7; continue; } uintptr_t lo = (uintptr_t)p, hi = lo + sizeof(E) * c[x].v.size(); for (auto& g : rg) ok = ok && check(hi <= g.first || g.second <= lo, "fields share storage", in); rg.push_back({lo, hi}); ok = ok && check(lo % AL == 0, "field storage not aligned", in); if (ok && raw() && raw()->has(p)) ok = check(raw()->inside(p, hi - lo), "field storage outside its block", in); bool same = true; for (size_t j = 0; j < c[x].v.size(); ++j) same = same && ok1(p[j], c[x].v[j]); ok = ok && check(same, "field contents", in + fmt(" variable %d after step %d", x, i + 1)); h = hash(c[x].v.data(), 8 * c[x].v.size(), h + c[x].sub + (c[x].s ? 2 : 0)); } state(h); }
    for (int x = 0; x < K; ++x) drop(x);
    if (ok && raw()) ok = check(raw()->bad == bad0 && raw()->nb == nb0, "field storage not returned exactly once", in); }
  armed = false; sample(fmt("all lifetimes of depth %d over %d operations on 3 variables, ", depth, N) + nm); }
template<class F> static void exhaust(const char* n, F f) { for (int fail = 0; fail < 3; ++fail) { cur(std::string("exhaustion: ") + n); eval(); trace(); transition(); bool* hit = (bool*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); ChildResult r = child([&](int fd) { f(fail, hit); put(fd, "went on"); _exit(0); }); if (*hit) check(r.exited ? r.code != 0 && r.code != 99 : r.sig == SIGABRT, std::string("allocation failure not reported by ") + n, fmt("raw request %d: exit %d signal %d %s", fail, r.code, r.sig, r.out.c_str())); munmap(hit, 4096); } }
int main(int argc, char** argv) { init(argc, argv);
  { static char a0[] = "vf", a1[] = "-poolsize", a2[] = "0.0011"; static char* av[] = {a0, a1, a2, 0}; static char** pv = av; static int ac = 3; QDP_initialize(&ac, &pv); }
  static unsigned char* mem = (unsigned char*)mmap(0, 4 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); heap.init(mem, 4 << 20); Pool pool(600); const int t = thorough(); std::string mode = argc > 1 ? argv[1] : "";
  lattice(IV(Nd, 2));
  std::vector<long> sz = POOL ? std::vector<long>{0, 1, AL - 1, AL + 1, 300000, 600000, 1 << 20} : std::vector<long>{0, 1, AL - 1, AL, AL + 1, 32768, 32768 * 2, 33000};
  for (unsigned off = 0; off < (POOL == 2 ? 1u : 2u * AL); off += (off < 4 || mode == "all" || t || AL <= 16) ? 1 : 5) { pool.run("requests", [=] { requests(sz, 3, off, 0, 1); }); pool.run("returned", [=] { returned(sz, off); }); }
  for (unsigned off : std::vector<unsigned>{0, 1, AL - 1, AL / 2}) if (POOL != 2 || !off) for (int p = 0; p < (int)sz.size(); ++p) pool.run("requests deep", [=] { requests(sz, 4 + t, off, p, sz.size()); });
  pool.run("misuse", [] { misuse(); }); pool.run("huge", [] { huge(); }); pool.run("giants", [] { giants(); }); pool.run("crowd", [] { crowd(); });
  for (unsigned off : std::vector<unsigned>{0, 3}) if (POOL != 2 || !off) for (int p = 0; p < 8; ++p) { pool.run("life", [=] { life<LatticeReal>("real", 3 + (t && !off), off, p, 8); }); pool.run("life", [=] { life<LatticeColorMatrixD>("double colour matrix", 3, off, p, 8); }); pool.run("life", [=] { life<LatticeInteger>("integer", 3, off, p, 8); }); }
  pool.run("exhaust", [] {
    auto go = [](auto g) { return [g](int fail, bool* hit) { static LatticeReal a; a = 1; *hit = true;
#ifdef QDP_USE_TBBPOOL_ALLOCATOR
        for (int i = 0; i < 100000; ++i) g(a);
#else
        failAt = fail; req = 0; failed = false; armed = true; g(a); *hit = failed;
#endif
      }; };
    exhaust("a new field", go([](LatticeReal& a) { volatile char* p = (volatile char*)(new LatticeReal)->getF(); *p = 1; }));
    exhaust("a copy of a field", go([](LatticeReal& a) { volatile char* p = (volatile char*)(new LatticeReal(a))->getF(); *p = 1; }));
    exhaust("a field from an expression", go([](LatticeReal& a) { volatile char* p = (volatile char*)(new LatticeReal(a + a))->getF(); *p = 1; }));
    exhaust("a subset copy", go([](LatticeReal& a) { new OSubLattice<PScalar<PScalar<RScalar<REAL>>>>(even, a); }));
  });
  pool.drain(); return finish(); }
