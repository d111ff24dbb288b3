// Keys and values of the map checks.
#ifndef VF_KV_H
#define VF_KV_H
#include "lat.h"
#include "stubxml.h"
#include "qdp_map_obj_disk.h"
#include "qdp_map_obj_memory.h"
#include "qdp_map_obj_null.h"
#include "qdp_map_obj_disk_multiple.h"
namespace QDP {
struct SKey { std::string s; multi1d<int> d; SKey() {} SKey(const std::string& a, int n) : s(a), d(n) { for (int i = 0; i < n; ++i) d[i] = i - 1; } };
inline void write(BinaryWriter& w, const SKey& k) { writeDesc(w, k.s); write(w, k.d); }
inline void read(BinaryReader& r, SKey& k) { readDesc(r, k.s); read(r, k.d); }
}
namespace vf {
template<class K> struct Key;
template<> struct Key<int> { static const char* nm() { return "int"; } static int mk(int i) { static const int v[] = {1, -1, 256, 0}; return i < 4 ? v[i] : i * 7919; } static std::string id(int k) { return std::to_string(k); } };
template<> struct Key<char> { static const char* nm() { return "char"; } static char mk(int i) { static const char v[] = {'a', 0, (char)200, 'b'}; return i < 4 ? v[i] : (char)(i + 100); } static std::string id(char k) { return std::to_string((int)k); } };
template<> struct Key<SKey> { static const char* nm() { return "record"; } static SKey mk(int i) { switch (i) { case 0: return SKey("", 0); case 1: return SKey("k", 1); case 2: return SKey("key two", 3); } return SKey(std::string(i, 'x'), i % 3); } static std::string id(const SKey& k) { std::string r = k.s + "|"; for (int i = 0; i < k.d.size(); ++i) r += std::to_string(k.d[i]) + ","; return r; } };
// value of a token and a size class, and back to a comparable image
template<class V> struct Val;
template<> struct Val<double> { enum { classes = 1 }; static const char* nm() { return "double"; } static double mk(int t, int) { return t * 0.5; } static std::string im(double v) { return fmt("%.17g", v); } };
template<> struct Val<multi1d<int>> { enum { classes = 3 }; static const char* nm() { return "int array"; } static multi1d<int> mk(int t, int c) { static const int n[] = {1, 0, 4, 3000}; multi1d<int> v(n[c]); for (int i = 0; i < v.size(); ++i) v[i] = t * 100 + i; return v; } static std::string im(const multi1d<int>& v) { std::string r = std::to_string(v.size()) + ":"; uint64_t h = 7; for (int i = 0; i < v.size(); ++i) h = hash(&v[i], 4, h); return r + std::to_string(v.size() ? v[0] : 0) + "/" + fmt("%llx", (unsigned long long)h); } };
template<> struct Val<LatticeInteger> { enum { classes = 1 }; static const char* nm() { return "field"; } static LatticeInteger mk(int t, int) { LatticeInteger v; for (int i = 0; i < Layout::vol(); ++i) v.elem(i).elem().elem().elem() = t * 1000 + i; return v; } static std::string im(const LatticeInteger& v) { std::string r; for (int i = 0; i < Layout::vol(); ++i) r += std::to_string(v.elem(i).elem().elem().elem()) + ","; return r; } };
template<class V> inline std::string im(const V& v) { return Val<V>::im(v); }
// all sequences of choices, each run from the start
struct Tree { std::vector<int> ch, of; size_t at; int part, parts; Tree(int p = 0, int n = 1) : at(0), part(p), parts(n) {} void begin() { at = 0; } int choose(int n) { if (at == ch.size()) { ch.push_back(at ? 0 : part); of.push_back(n); } int c = ch[at++]; return c; } bool live() const { return ch.empty() || ch[0] < of[0]; }
  bool next() { while (!ch.empty()) { if ((ch.back() += ch.size() == 1 ? parts : 1) < of.back()) return true; ch.pop_back(); of.pop_back(); } return false; } };
} // namespace vf
#endif
