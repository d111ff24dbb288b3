// C19: every operation history of the in-memory, null and multi-file maps, against ordinary maps.
#include "kv.h"
#include <dirent.h>
using namespace QDP; using namespace vf; typedef std::ios_base IB;
static std::string file(int i) { return scratch() + fmt("/c19.%d.%d", (int)getpid(), i); }
static const int NK = 3;
typedef std::map<std::string, std::string> Want;
template<class K, class V> static bool look(const MapObject<K, V>& m, const MapObjectMemory<K, V>& mm, const Want& w, const std::string& ud, const std::string& in) { eval();
  if (!check(m.size() == w.size(), "number of elements", in + fmt(" %u want %zu", m.size(), w.size()))) return false;
  for (int i = 0; i < NK; ++i) { K k = Key<K>::mk(i); auto it = w.find(Key<K>::id(k)); if (!check(m.exist(k) == (it != w.end()), "existence of a key", in + fmt(" key %d", i))) return false; V v = Val<V>::mk(77, 0); int r = m.get(k, v); if (it == w.end() ? !check(r != 0 && im(v) == im(Val<V>::mk(77, 0)), "an absent key is found", in) : !check(r == 0 && im(v) == it->second, "value of a key", in + fmt(" key %d: returned %d value %.60s want %.60s", i, r, im(v).c_str(), it->second.c_str()))) return false; if (it != w.end() && !check(im(mm[k]) == it->second, "value of a key in place", in)) return false; }
  std::vector<K> k(2, Key<K>::mk(5)); std::vector<V> vs; m.keys(k); std::set<std::string> ids; for (auto& q : k) ids.insert(Key<K>::id(q)); bool ok = k.size() == w.size() && ids.size() == w.size(); for (auto& q : w) ok = ok && ids.count(q.first); if (!check(ok, "list of keys", in)) return false;
  mm.keysAndValues(k, vs); Want g; for (size_t i = 0; i < k.size() && i < vs.size(); ++i) g[Key<K>::id(k[i])] = im(vs[i]); if (!check(k.size() == w.size() && vs.size() == w.size() && g == w, "list of keys and values", in)) return false;
  Want a, b; size_t n = 0; for (auto it = mm.begin(); it != mm.end(); ++it, ++n) a[Key<K>::id(it->first)] = im((*it).second); for (auto it = mm.begin(); !(it == mm.end());) { auto o = it++; b[Key<K>::id((*o).first)] = im(o->second); } if (!check(n == w.size() && a == w && b == w, "iteration", in)) return false;
  std::string u = "?"; return check(m.getUserdata(u) == 0 && u == ud, "user data", in); }
template<class K, class V> static void memory(int depth, int part, int parts) { typedef MapObjectMemory<K, V> M; const int C = Val<V>::classes > 3 ? 3 : Val<V>::classes; Tree t(part, parts); bool ok = true; std::string key = std::string("in memory, ") + Key<K>::nm() + " to " + Val<V>::nm(); int tree = 0;
  static const char* opn[] = {"insert 0", "insert 1", "insert 2", "insert pair 0", "insert range 1 2 1", "insert range of a map 0 2", "erase 0", "erase 1", "erase 2", "clear", "set 0 in place", "set 1 in place", "insert 1 from the value of 0", "insert own range", "user data", "flush", "remember a copy", "exchange with the copy"}; const int N = 18;
  do { if (!t.live()) break; t.begin(); M* m = new M; M* other = new M; Want w, ow; std::string ud, oud; trace(); std::string in = key + ":"; int tok = 1; auto val = [&]() { V v = Val<V>::mk(tok, tok % C); ++tok; return v; }; auto id = [](int i) { return Key<K>::id(Key<K>::mk(i)); };
    for (int d = 0; d < depth && ok; ++d) { int c = t.choose(N); transition(); in += " "; in += opn[c]; vf::cur(in); MapObject<K, V>& base = *m;
      if (c < 3) { V v = val(); ok = check(base.insert(Key<K>::mk(c), v) == 0, "insert fails", in); w[id(c)] = im(v); v = val(); }
      else if (c == 3) { V v = val(); ok = check(m->insert(std::make_pair(Key<K>::mk(0), v)) == 0, "insert fails", in); w[id(0)] = im(v); }
      else if (c == 4) { std::vector<std::pair<K, V>> l; for (int i : {1, 2, 1}) { V v = val(); l.push_back(std::make_pair(Key<K>::mk(i), v)); w[id(i)] = im(v); } ok = check(m->insert(l.begin(), l.end()) == 0, "insert of a range fails", in); }
      else if (c == 5) { M l; for (int i : {0, 2}) { V v = val(); l.insert(Key<K>::mk(i), v); w[id(i)] = im(v); } ok = check(m->insert(l.begin(), l.end()) == 0, "insert of a range fails", in); }
      else if (c < 9) { m->erase(Key<K>::mk(c - 6)); w.erase(id(c - 6)); }
      else if (c == 9) { m->clear(); w.clear(); }
      else if (c == 10 || c == 11) { if (w.count(id(c - 10))) { V v = val(); V& r = (*m)[Key<K>::mk(c - 10)]; r = v; w[id(c - 10)] = im(v); } else if (d == 1) { const M& cm = *m; ChildResult r = child([&](int fd) { if (c == 10) put(fd, im(cm[Key<K>::mk(0)])); else put(fd, im((*m)[Key<K>::mk(1)])); put(fd, "x"); _exit(0); }, 20); ok = check(r.exited && r.code && r.out.empty(), "in-place access to an absent key is not refused", in); } }
      else if (c == 12) { if (w.count(id(0))) { m->insert(Key<K>::mk(1), (*m)[Key<K>::mk(0)]); w[id(1)] = w[id(0)]; } }
      else if (c == 13) m->insert(m->begin(), m->end());
      else if (c == 14) { ud = fmt("user %d", tok++); ok = check(base.insertUserdata(ud) == 0, "user data refused", in); }
      else if (c == 15) base.flush();
      else if (c == 16) { *other = *m; ow = w; oud = ud; }
      else { std::swap(m, other); std::swap(w, ow); std::swap(ud, oud); }
      ok = ok && look<K, V>(*m, *m, w, ud, in); uint64_t h = hash(ud); for (auto& e : w) h = hash(e.second, hash(e.first, h)); for (auto& e : ow) h = hash(e.second, hash(e.first, h + 5)); state(h); }
    if (ok) ok = look<K, V>(*other, *other, ow, oud, in + " the other map"); delete m; if (ok) ok = look<K, V>(*other, *other, ow, oud, in + " the other map, after the first is gone"); delete other; ++tree; } while (ok && t.next()); sample(key + fmt(": all histories of %d operations, part %d of %d", depth, part, parts)); }
template<class K, class V> static void null(int depth) { Tree t; bool ok = true; do { t.begin(); trace(); MapObjectNull<K, V> n; MapObject<K, V>& m = n; std::string in = "null map:"; for (int d = 0; d < depth && ok; ++d) { int c = t.choose(NK + 2); transition(); eval(); in += fmt(" %d", c); vf::cur(in); state(hash(in)); if (c < NK) m.insert(Key<K>::mk(c), Val<V>::mk(c, 0)); else if (c == NK) m.flush(); else m.insertUserdata("u");
      std::vector<K> ks; m.keys(ks); ok = check(m.size() == 0 && ks.empty(), "the null map holds something", in); for (int i = 0; i < NK && ok; ++i) { V v = Val<V>::mk(77, 0); ok = check(!m.exist(Key<K>::mk(i)) && m.get(Key<K>::mk(i), v) != 0 && im(v) == im(Val<V>::mk(77, 0)), "the null map has a key", in); } } } while (ok && t.next()); sample("null map"); }
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) ++n; closedir(d); return n; }
// every distribution of the keys over three files, every list of files, sessions of a multi-file map
template<class K, class V> static void multiple(int part, int parts) { typedef MapObjectDisk<K, V> D; typedef MapObjectDiskMultiple<K, V> M; std::string key = std::string("files, ") + Key<K>::nm() + " to " + Val<V>::nm(); std::vector<std::vector<int>> lists = {{}, {0}, {1}, {2}, {0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}, {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}, {0, 0}}; bool ok = true; const int f0 = fds();
  for (int dist = part; dist < 512 && ok; dist += parts) { std::map<std::string, std::string> fc[3]; for (int f = 0; f < 3; ++f) { D d; d.insertUserdata(fmt("data of %d", f)); d.open(file(f), IB::in | IB::out | IB::trunc); for (int k = 0; k < NK; ++k) if (dist >> (3 * k + f) & 1) { transition(); if ((dist + f) % 3 == 0) d.insert(Key<K>::mk(k), Val<V>::mk(900 + k, 0)); V v = Val<V>::mk(f * 10 + k, k % Val<V>::classes); d.insert(Key<K>::mk(k), v); fc[f][Key<K>::id(Key<K>::mk(k))] = im(v); } }
    std::string img[3]; for (int f = 0; f < 3; ++f) img[f] = slurp(file(f)); auto lk = [&](const M& m, const std::vector<int>& l, const std::string& in) { eval(); std::set<std::string> all; for (int f : l) for (auto& e : fc[f]) all.insert(e.first); std::vector<K> ks(3, Key<K>::mk(7)); m.keys(ks); std::set<std::string> got; for (auto& q : ks) got.insert(Key<K>::id(q)); if (!check(ks.size() == all.size() && got == all, "list of keys over several files", in + fmt(" %zu want %zu", ks.size(), all.size()))) return false;
      for (int k = 0; k < NK; ++k) { K q = Key<K>::mk(k); std::set<std::string> can; for (int f : l) { auto it = fc[f].find(Key<K>::id(q)); if (it != fc[f].end()) can.insert(it->second); } V v = Val<V>::mk(77, 0); int r = m.get(q, v); if (!check(m.exist(q) == !can.empty(), "existence of a key over several files", in + fmt(" key %d", k)) || !check(can.empty() ? r != 0 && im(v) == im(Val<V>::mk(77, 0)) : r == 0 && can.count(im(v)), "lookup over several files", in + fmt(" key %d returned %d %.50s", k, r, im(v).c_str()))) return false; }
      std::string u = "?"; int r = m.getUserdata(u); return check(l.empty() ? r != 0 : r == 0 && u == fmt("data of %d", l[0]), "user data over several files", in + " " + u); };
    for (size_t a = 0; a < lists.size() && ok; ++a) { auto names = [&](const std::vector<int>& l) { std::vector<std::string> r; for (int f : l) r.push_back(file(f)); return r; }; std::string in = key + fmt(": distribution %o files", dist); for (int f : lists[a]) in += fmt(" %d", f); trace(); vf::cur(in); { M m; ok = lk(m, {}, in + " before opening") && check(m.fileExists(names(lists[a])), "fileExists", in); m.open(names(lists[a])); ok = ok && lk(m, lists[a], in); m.flush(); ok = ok && lk(m, lists[a], in + " flushed"); state(hash(in)); if (dist % 3 == 0) { m.close(); ok = ok && lk(m, {}, in + " closed"); m.close(); } if (dist % 3 != 2) { auto& b = lists[(a * 5 + dist) % lists.size()]; transition(); m.open(names(b)); ok = ok && lk(m, b, in + " then another list"); } }
      for (int f = 0; f < 3 && ok; ++f) ok = check(slurp(file(f)) == img[f], "reading changes a file", in); ok = ok && check(fds() == f0, "files are left open", in + fmt(" %d want %d", fds(), f0)); } }
  // some file of the list is missing
  for (int miss = 1; miss < 8 && ok; ++miss) { std::vector<std::string> l; for (int f = 0; f < 3; ++f) l.push_back(miss >> f & 1 ? file(f) + ".none" : file(f)); M m; ok = check(!m.fileExists(l), "fileExists with a missing file", fmt("missing %d", miss)); ChildResult r = child([&](int fd) { M q; q.open(l); put(fd, "went on"); _exit(0); }, 20); eval(); ok = ok && check(r.exited && r.code && r.out.empty(), "opening a missing file is not refused", fmt("missing %d", miss)); for (auto& n : l) if (n.size() > 5 && n.substr(n.size() - 5) == ".none") ok = ok && check(!std::ifstream(n), "a file appears", n); }
  for (int f = 0; f < 3; ++f) unlink(file(f).c_str()); sample(key + fmt(": part %d of %d of all distributions", part, parts)); }
namespace vf { template<> struct Val<std::string> { static std::string im(const std::string& v) { return v; } }; }
// listed larger maps: thousands of keys, dozens of files
template<class K, class V, class MK, class MV, class ID> static void big(const char* nm, int n, MK mk, MV mv, ID id) { typedef MapObjectMemory<K, V> M; std::string in = fmt("%s, %d keys", nm, n); vf::cur(in); trace(); M m; std::map<std::string, std::string> w; auto all = [&](const M& m, const Want& w, const char* when) { eval(); if (!check(m.size() == w.size(), "number of elements", in + when)) return false; size_t hit = 0; for (int i = 0; i < n + 3; ++i) { K k = mk(i); auto it = w.find(id(k)); V v = mv(-1); int r = m.get(k, v); if (!check(m.exist(k) == (it != w.end()) && (it == w.end() ? r != 0 : r == 0 && im(v) == it->second), "value of a key", in + when + fmt(" key %d", i))) return false; hit += it != w.end(); } std::vector<K> k; std::vector<V> v; m.keysAndValues(k, v); Want g; for (size_t i = 0; i < k.size() && i < v.size(); ++i) g[id(k[i])] = im(v[i]); std::vector<K> k2; m.keys(k2); state(hash(in + when)); return check(k.size() == w.size() && v.size() == w.size() && g == w && k2.size() == w.size(), "list of keys and values", in + when); };
  for (int i = 0; i < n; ++i) { int j = (int)((long)i * 7919 % n); transition(); m.insert(mk(j), mv(j)); w[id(mk(j))] = im(mv(j)); } if (!all(m, w, " filled")) return; M c(m); for (int i = 0; i < n; i += 3) { transition(); m.erase(mk(i)); w.erase(id(mk(i))); } if (!all(m, w, " thinned")) return; for (int i = 0; i < n; i += 2) { transition(); m.insert(mk(i), mv(i + n)); w[id(mk(i))] = im(mv(i + n)); } if (!all(m, w, " replaced")) return; M d; d = m; m.clear(); if (!all(m, Want(), " cleared")) return; all(d, w, " the copy"); sample(in); }
static void fleet() { typedef MapObjectDisk<int, multi1d<int>> D; typedef MapObjectDiskMultiple<int, multi1d<int>> M; const int F = 40, NK = 60; std::vector<std::string> names; std::map<int, std::set<std::string>> can; std::set<int> keys; vf::cur("forty files"); trace(); for (int f = 0; f < F; ++f) { names.push_back(file(f) + "f"); D d; d.insertUserdata(fmt("data of %d", f)); d.open(names[f], IB::in | IB::out | IB::trunc); for (int k = 0; k < NK; ++k) { int key = f * (NK - 10) + k; transition(); auto v = Val<multi1d<int>>::mk(f * 1000 + k, k % 3); d.insert(key, v); keys.insert(key); can[key].insert(im(v)); } } { M m; m.open(names); for (int rep = 0; rep < 2; ++rep) { eval(2); std::vector<int> ks; m.keys(ks); std::set<int> g(ks.begin(), ks.end()); check(ks.size() == keys.size() && g == keys, "list of keys over several files", "forty files"); for (int k = -2; k < F * NK; ++k) { transition(); auto v = Val<multi1d<int>>::mk(77, 0); int r = m.get(k, v); bool in = keys.count(k); if (!check(m.exist(k) == in && (in ? r == 0 && can[k].count(im(v)) : r != 0), "lookup over several files", fmt("forty files, key %d", k))) break; } std::string u; check(m.getUserdata(u) == 0 && u == "data of 0", "user data over several files", "forty files"); state(rep); } } for (auto& n : names) unlink(n.c_str()); sample("forty files"); }
int main(int argc, char** argv) { init(argc, argv); startup(); lattice(IV(Nd, 2)); Pool pool(800); const int t = thorough();
  for (int p = 0; p < 18; ++p) { pool.run("memory", [=] { memory<int, double>(5, p, 18); }); pool.run("memory", [=] { memory<SKey, multi1d<int>>(4, p, 18); }); pool.run("memory", [=] { memory<char, LatticeInteger>(3 + t, p, 18); }); }
  pool.run("big", [] { big<int, double>("integer keys", 20000, [](int i) { return i * 7 - 50000; }, [](int t) { return t * 0.5; }, [](int k) { return std::to_string(k); }); }); pool.run("big", [] { big<SKey, multi1d<int>>("record keys", 3000, [](int i) { SKey k(fmt("name%d", i % 700), i / 700 + 1); return k; }, [](int t) { return Val<multi1d<int>>::mk(t, (t + 3) % 3); }, [](const SKey& k) { return Key<SKey>::id(k); }); }); pool.run("big", [] { big<std::string, std::string>("long text", 1500, [](int i) { return std::string(i, 'k') + fmt("%d", i); }, [](int t) { return std::string((t + 1) % 5000, 'v') + fmt("%d", t); }, [](const std::string& k) { return k; }); }); pool.run("fleet", [] { fleet(); });
  pool.run("null", [] { null<int, double>(5); }); pool.run("null", [] { null<SKey, multi1d<int>>(4); }); for (int p = 0; p < 4; ++p) { pool.run("multi", [=] { multiple<int, multi1d<int>>(p, 4); }); if (t || p == 0) pool.run("multi", [=] { multiple<SKey, double>(p, 4); }); } pool.drain(); return finish(); }
