// C17: every operation history of the disk map, against ordinary maps.
#include "kv.h"
using namespace QDP; using namespace vf; typedef std::ios_base IB;
static std::string file(int i) { return scratch() + fmt("/c17.%d.%d", (int)getpid(), i); }
struct Content { std::map<std::string, std::string> kv; bool there = false, udKnown = false; std::string ud; };
static const int NK = 3;
template<class K, class V> struct Sys { typedef MapObjectDisk<K, V> M; M* m = new M; Content f[2]; int cur = -1; bool ro = false, udSet = false; std::string ud; ~Sys() { delete m; }
  std::vector<std::string> keysOf() { std::vector<K> k; m->keys(k); std::vector<std::string> r; for (auto& q : k) r.push_back(Key<K>::id(q)); std::sort(r.begin(), r.end()); return r; }
  bool look(const std::string& in, bool deep, M* o, const Content* c, bool opened) { eval(); std::map<std::string, std::string> none; auto& kv = opened ? c->kv : none; if (!check(!opened || o->size() == kv.size(), "number of elements", in + fmt(" %u want %zu", o->size(), kv.size()))) return false; for (int i = 0; i < NK; ++i) { K k = Key<K>::mk(i); auto it = kv.find(Key<K>::id(k)); if (!check(o->exist(k) == (it != kv.end()), "existence of a key", in + fmt(" key %d", i))) return false; if (deep && opened) { V v = Val<V>::mk(77, 0); int r = o->get(k, v); if (it == kv.end() ? !check(r != 0, "an absent key is found", in) : !check(r == 0 && im(v) == it->second, "value of a key", in + fmt(" key %d: returned %d value %.60s want %.60s", i, r, im(v).c_str(), it->second.c_str()))) return false; } }
    if (deep && opened) { std::vector<K> k; o->keys(k); std::vector<std::string> r, w; for (auto& q : k) r.push_back(Key<K>::id(q)); std::sort(r.begin(), r.end()); for (auto& q : kv) w.push_back(q.first); std::sort(w.begin(), w.end()); if (!check(r == w, "list of keys", in)) return false; std::string u = "?"; int g = o->getUserdata(u); if (!check(g == 0 && (!c->udKnown || u == c->ud), "user data", in + " " + u)) return false; }
    if (deep && !opened) { V v = Val<V>::mk(77, 0); std::string u; if (!check(o->get(Key<K>::mk(0), v) != 0 && im(v) == im(Val<V>::mk(77, 0)) && o->getUserdata(u) != 0, "lookup without an open file is not refused", in)) return false; } return true; } };
template<class K, class V> static void hist(int depth, bool deep, bool opened, int part, int parts, bool big) { typedef MapObjectDisk<K, V> M; const int C = Val<V>::classes; Tree t(part, parts); bool ok = true; std::string key = std::string(Key<K>::nm()) + " to " + Val<V>::nm() + (deep ? " observed throughout" : " observed at the end");
  static const char* opn[] = {"create A", "open A rw", "open A ro", "create B", "open B rw", "flush", "close", "renew", "user data", "get 0", "get 1", "get 2", "insert"};
  do { if (!t.live()) break; t.begin(); for (int i = 0; i < 2; ++i) unlink(file(i).c_str()); { Sys<K, V> s; trace(); std::string in = key + ":"; int tok = 1; auto create = [&](int f) { s.m->open(file(f), IB::in | IB::out | IB::trunc); s.cur = f; s.ro = false; s.f[f] = Content(); s.f[f].there = true; s.f[f].udKnown = s.udSet; s.f[f].ud = s.ud; }; if (opened) { create(0); in += " create A"; }
    for (int d = 0; d < depth && ok; ++d) { const int N = 12 + 2 * C + (C > 1 ? 0 : 1); int c = t.choose(N); transition(); in += " "; in += c < 12 ? opn[c] : fmt("insert %d class %d", (c - 12) / C, (c - 12) % C); vf::cur(in); const bool isOpen = s.cur >= 0;
      if (c <= 4) { int f = c >= 3; bool mk = c == 0 || c == 3, rw = c == 1 || c == 4; if (!mk && !s.f[f].there) break; std::string before = isOpen ? slurp(file(f)) : ""; bool threw = false; try { if (mk) { if (isOpen) s.m->open(file(f), IB::in | IB::out | IB::trunc); else create(f); } else { s.m->open(file(f), rw ? IB::in | IB::out : IB::in); if (!isOpen) { s.cur = f; s.ro = !rw; s.udSet = s.f[f].udKnown; s.ud = s.f[f].ud; } } } catch (const std::string&) { threw = true; } ok = check(threw == isOpen, isOpen ? "opening twice is not refused" : "open fails", in) && (!isOpen || check(slurp(file(f)) == before, "a refused open changes the file", in)); }
      else switch (c) { case 5: s.m->flush(); break; case 6: s.m->close(); s.udSet = s.udSet && false; s.cur = -1; break; case 7: delete s.m; s.m = new M; s.cur = -1; s.udSet = true; s.ud = ""; break;
        case 8: { std::string u = fmt("user <%d>", tok++); int r = s.m->insertUserdata(u); ok = check((r == 0) == !isOpen, "user data in a state that does not take it", in); if (!isOpen) { s.ud = u; s.udSet = true; } break; }
        case 9: case 10: case 11: { V v = Val<V>::mk(99, 0); K k = Key<K>::mk(c - 9); int r = s.m->get(k, v); auto* kv = isOpen ? &s.f[s.cur].kv : nullptr; bool has = kv && kv->count(Key<K>::id(k)); ok = check((r == 0) == has && im(v) == (has ? (*kv)[Key<K>::id(k)] : im(Val<V>::mk(99, 0))), "lookup", in + fmt(" returned %d", r)); break; }
        default: { K k = Key<K>::mk((c - 12) / C); V v = Val<V>::mk(tok++, big && (c - 12) % C == 2 ? 3 : (c - 12) % C); int r = s.m->insert(k, v); bool can = isOpen && !s.ro; ok = check((r == 0) == can, can ? "insert fails" : "insert not refused", in + fmt(" returned %d", r)); if (can) s.f[s.cur].kv[Key<K>::id(k)] = im(v); } }
      if (ok) ok = s.look(in, deep, s.m, s.cur >= 0 ? &s.f[s.cur] : nullptr, s.cur >= 0); uint64_t h = hash(&s.cur, 4, s.ro + 2 * deep); for (auto& f : s.f) for (auto& e : f.kv) h = hash(e.second, hash(e.first, h + f.there)); state(h); }
    if (ok && s.cur >= 0) { ok = s.look(in + " then", true, s.m, &s.f[s.cur], true); } if (ok && t.at % 2) s.m->close(); delete s.m; s.m = nullptr;
    for (int f = 0; f < 2 && ok; ++f) { struct stat sb; bool ex = stat(file(f).c_str(), &sb) == 0; ok = check(ex == s.f[f].there, "file existence", in); if (ok && ex) { vf::cur(in + " reopen"); std::string img = slurp(file(f)); { M q; ok = check(q.fileExists(file(f)), "fileExists", in); q.open(file(f), IB::in); ok = ok && s.look(in + fmt(" reopened %c", 'A' + f), true, &q, &s.f[f], true); if (s.f[f].udKnown) ok = ok && check(MapObjDiskEnv::getMetaData(file(f)) == s.f[f].ud, "metadata of a file", in); } ok = ok && check(slurp(file(f)) == img, "a reading session changes the file", in); } } if (s.m) {} }
  } while (ok && t.next()); for (int i = 0; i < 2; ++i) unlink(file(i).c_str()); sample(key + fmt(": all histories of %d operations", depth)); }
// many keys: every number of keys, inserted in three orders, updated, over several sessions
template<class K, class V> static void many(int most) { typedef MapObjectDisk<K, V> M; for (int n = 0; n <= most; ++n) for (int ord = 0; ord < 3; ++ord) for (int upd = 0; upd < 2; ++upd) { std::string in = fmt("%d keys, order %d, updates %d", n, ord, upd); vf::cur(in); std::map<std::string, std::string> kv; trace(); auto at = [&](int i) { return ord == 0 ? i : ord == 1 ? n - 1 - i : (i * 5 + 3) % n; }; if (ord == 2 && n % 5 == 0) continue; { M m; m.open(file(0), IB::in | IB::out | IB::trunc); for (int i = 0; i < n; ++i) { if (i == n / 2) { m.close(); m.open(file(0), IB::in | IB::out); } K k = Key<K>::mk(at(i)); V v = Val<V>::mk(i, i % Val<V>::classes); transition(); m.insert(k, v); kv[Key<K>::id(k)] = im(v); if (upd && i % 3 == 2) { K k2 = Key<K>::mk(at(i / 2)); V w = Val<V>::mk(i + 1000, (i + 1) % Val<V>::classes), g = w; m.get(k, g); m.insert(k2, w); kv[Key<K>::id(k2)] = im(w); } } }
    M q; q.open(file(0), IB::in); std::vector<K> ks; q.keys(ks); std::set<std::string> ids; bool ok = ks.size() == kv.size() && q.size() == kv.size(); for (auto& k : ks) { ids.insert(Key<K>::id(k)); V v = Val<V>::mk(0, 0); eval(); ok = ok && q.get(k, v) == 0 && kv.count(Key<K>::id(k)) && im(v) == kv[Key<K>::id(k)]; } ok = ok && ids.size() == kv.size(); state(hash(in)); check(ok, "a map of many keys", in + " " + Key<K>::nm()); } unlink(file(0).c_str()); }
// positions beyond the range of 32-bit integers: between sessions the file grows by a hole, after which new records go behind it
static void far(int part) { typedef MapObjectDisk<int, multi1d<int>> M; typedef Val<multi1d<int>> W; static const long X[] = {0, (1l << 31) - 30, (1l << 31) + 5, (1l << 32) - 30, (1l << 32) + 7, (5l << 30) + 3}; static const char* on[] = {"insert 0", "insert 1", "get 0", "get 1", "flush"}; const std::string f = file(0);
  for (int a = 0; a < 6; ++a) for (int b = a; b < 6; ++b) for (int h = part; h < 625; h += 4) { std::map<std::string, std::string> kv; std::string in = fmt("holes to %ld and %ld:", X[a], X[b]); vf::cur(in); trace(); unlink(f.c_str()); bool ok = true; int tok = 1; { M m; m.open(f, IB::in | IB::out | IB::trunc); m.insert(Key<int>::mk(0), W::mk(1, 2)); kv[Key<int>::id(Key<int>::mk(0))] = im(W::mk(1, 2)); }
    auto look = [&](M& m) { for (int i = 0; i < 2; ++i) { int k = Key<int>::mk(i); auto it = kv.find(Key<int>::id(k)); multi1d<int> v = W::mk(77, 0); eval(); int r = m.get(k, v); if (!check(it == kv.end() ? r != 0 && !m.exist(k) : r == 0 && im(v) == it->second, "value of a key in a large file", in)) return false; } return true; };
    int r = h; for (int s = 0; s < 2 && ok; ++s) { long x = s ? X[b] : X[a]; struct stat sb; if (stat(f.c_str(), &sb) || (x > sb.st_size && truncate(f.c_str(), x))) { extra("large files skipped"); unlink(f.c_str()); return; } in += " open"; M m; m.open(f, IB::in | IB::out); for (int d = 0; d < 2 && ok; ++d) { int c = r % 5; r /= 5; in += std::string(" ") + on[c]; vf::cur(in); transition(); if (c < 2) { multi1d<int> v = W::mk(++tok, tok % 3); ok = check(m.insert(Key<int>::mk(c), v) == 0, "insert in a large file", in); kv[Key<int>::id(Key<int>::mk(c))] = im(v); } else if (c < 4) { multi1d<int> v = W::mk(77, 0); int k = Key<int>::mk(c - 2); bool has = kv.count(Key<int>::id(k)); int q = m.get(k, v); ok = check((q == 0) == has && (!has || im(v) == kv[Key<int>::id(k)]), "lookup in a large file", in); } else m.flush(); if (ok && s == 1) ok = look(m); } state(hash(in)); }
    if (ok) { M q; q.open(f, IB::in); vf::cur(in + " reopen"); std::vector<int> ks; q.keys(ks); ok = look(q) && check(ks.size() == kv.size(), "keys of a large file", in); } if (!ok) break; } unlink(f.c_str()); sample("all sessions of two operations on files grown by holes up to 5 GB"); }
// keys and values around the sizes at which an implementation may change its method
static void large() { typedef MapObjectDisk<SKey, multi1d<int>> M; static const int L[] = {0, 1, 63, 64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 65537, 100003}; for (int kl : L) for (int vl : L) { std::string in = fmt("key of %d characters, value of %d words", kl, vl); vf::cur(in); trace(); state(hash(in)); auto mk = [&](int n, int t) { multi1d<int> v(n); for (int i = 0; i < n; ++i) v[i] = t + i * 3; return v; }; SKey k(std::string(kl, 'k'), 2), k2(std::string(kl, 'k') + "2", 1); multi1d<int> v = mk(vl, 5), w = mk(vl / 2, 9), g; { M m; m.insertUserdata(std::string(kl, 'u')); m.open(file(0), IB::in | IB::out | IB::trunc); m.insert(k, w); m.insert(k2, w); m.insert(k, v); transition(3); } M q; q.open(file(0), IB::in); eval(3); std::string u; bool ok = q.get(k, g) == 0 && im(g) == im(v); ok = ok && q.get(k2, g) == 0 && im(g) == im(w) && q.getUserdata(u) == 0 && u == std::string(kl, 'u'); std::vector<SKey> ks; q.keys(ks); ok = ok && ks.size() == 2 && ks[0].s.size() + ks[1].s.size() == 2 * (size_t)kl + 1; check(ok, "large keys and values", in); } unlink(file(0).c_str()); }
template<class K, class V> static void manyMore() { typedef MapObjectDisk<K, V> M; for (int n : {100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 3000}) { std::string in = fmt("%d keys", n); vf::cur(in); trace(); state(hash(in)); { M m; m.open(file(0), IB::in | IB::out | IB::trunc); for (int i = 0; i < n; ++i) { transition(); m.insert(Key<K>::mk((int)((long)i * 7919 % n)), Val<V>::mk(i, 0)); } } M q; q.open(file(0), IB::in); std::vector<K> ks; q.keys(ks); bool ok = (int)ks.size() == n && (int)q.size() == n; for (int i = 0; i < n && ok; ++i) { if (n % 7919 == 0) break; V g = Val<V>::mk(0, 0); eval(); ok = q.get(Key<K>::mk((int)((long)i * 7919 % n)), g) == 0 && im(g) == im(Val<V>::mk(i, 0)); } check(ok, "a map of very many keys", in + " " + Key<K>::nm()); } unlink(file(0).c_str()); }
// ---- uses that must be refused: missing files, files that are not maps, damaged records
static void refused() { typedef MapObjectDisk<int, multi1d<int>> M; auto mk = [](const std::string& f) { M m; m.insertUserdata("data"); m.open(f, IB::in | IB::out | IB::trunc); m.insert(1, Val<multi1d<int>>::mk(1, 2)); m.insert(2, Val<multi1d<int>>::mk(2, 0)); }; const std::string f = file(0); mk(f); const std::string img = slurp(f); const std::string v1 = im(Val<multi1d<int>>::mk(1, 2)), v2 = im(Val<multi1d<int>>::mk(2, 0)); const size_t hdr = 4 + MapObjDiskEnv::getFileMagic().size() + 4;
  struct D { std::string n, bytes; bool must; }; std::vector<D> d; for (size_t n = 0; n < img.size(); ++n) d.push_back({fmt("cut at %zu", n), img.substr(0, n), true}); for (size_t n = 0; n < img.size(); ++n) for (unsigned char x : {0x01, 0x80, 0xff}) { std::string b = img; b[n] ^= x; bool ver = n >= hdr - 4 && n < hdr; d.push_back({fmt("byte %zu changed by %02x", n, x), b, false}); (void)ver; } d.push_back({"empty", "", true}); d.push_back({"text", std::string(300, 'z'), true}); d.push_back({"zeros", std::string(300, 0), true});
  for (auto& c : d) { vf::cur("damaged file: " + c.n); spew(f, c.bytes); eval(); transition(); trace(); state(hash(c.bytes)); ChildResult r = child([&](int fd) { M q; q.open(f, IB::in); std::string o; for (int k = 1; k <= 2; ++k) { multi1d<int> v(1); v[0] = 0; int g = q.get(k, v); o += fmt("%d:%s;", g, g == 0 ? im(v).c_str() : ""); } put(fd, o); _exit(0); }, 20); bool good = (!r.exited && r.sig == SIGABRT) || (r.exited && (r.code || r.out == "0:" + v1 + ";0:" + v2 + ";")); check(good && r.code != 99 && !(c.must && !r.code && !(r.out == "0:" + v1 + ";0:" + v2 + ";")), "a damaged file gives wrong data instead of being refused", c.n + fmt(" exit %d signal %d %s", r.code, r.sig, r.out.c_str())); }
  unlink(f.c_str()); struct R { const char* n; std::function<void()> g; } rs[] = {{"opening a missing file for reading", [&] { M m; m.open(f, IB::in); }}, {"opening in a missing directory", [&] { M m; m.open(f + "/x/y", IB::in | IB::out | IB::trunc); }}, {"metadata of a missing file", [&] { MapObjDiskEnv::getMetaData(f); }}};
  for (auto& c : rs) { vf::cur(c.n); eval(); transition(); trace(); ChildResult r = child([&](int fd) { c.g(); put(fd, "went on"); _exit(0); }, 20); check(r.exited && r.code != 0 && r.out.empty(), std::string("not refused: ") + c.n, fmt("exit %d signal %d %s", r.code, r.sig, r.out.c_str())); } { M m; check(!m.fileExists(f), "fileExists of a missing file"); } }
int main(int argc, char** argv) { init(argc, argv); startup(); lattice(IV(Nd, 2)); Pool pool(800); const int t = thorough();
  for (int p = 0; p < 8; ++p) { pool.run("hist", [=] { hist<int, multi1d<int>>(5 + t, false, true, p, 8, false); }); pool.run("hist", [=] { hist<int, multi1d<int>>(4 + t, true, true, p, 8, false); }); pool.run("hist", [=] { hist<int, multi1d<int>>(4 + t, false, false, p, 8, false); }); pool.run("hist", [=] { hist<SKey, double>(4 + t, false, true, p, 8, false); }); pool.run("hist", [=] { hist<SKey, multi1d<int>>(4, true, true, p, 8, true); }); pool.run("hist", [=] { hist<char, LatticeInteger>(4, false, true, p, 8, false); }); }
  for (int p = 0; p < 4; ++p) pool.run("far", [=] { far(p); }); pool.run("large", large); pool.run("many", manyMore<int, double>); pool.run("many", manyMore<SKey, multi1d<int>>);
  pool.run("many", [=] { many<int, multi1d<int>>(t ? 300 : 64); }); pool.run("many", [=] { many<SKey, double>(t ? 200 : 64); }); pool.run("refused", [] { refused(); }); pool.drain(); return finish(); }
