// Reference serialiser (big-endian image), reference CRC-32, and one face over the binary stream classes.
#ifndef VF_BIO_H
#define VF_BIO_H
#include "lat.h"
#include <memory>
#include <complex>
#include <list>
namespace vf {
typedef unsigned int u32; typedef unsigned long long u64;
inline u32 refcrc(u32 c, const std::string& s) { c = ~c; for (unsigned char b : s) { c ^= b; for (int k = 0; k < 8; ++k) c = (c >> 1) ^ (c & 1 ? 0xEDB88320u : 0); } return ~c; }
template<class T> std::string be(const T& v) { std::string s((const char*)&v, sizeof v); return std::string(s.rbegin(), s.rend()); }
template<class T> struct Ser { static void put(std::string& o, const T& v) { o += be(v); } static bool eq(const T& a, const T& b) { return memcmp(&a, &b, sizeof a) == 0; } };
template<class T> void ser(std::string& o, const T& v) { Ser<T>::put(o, v); }
template<class T> bool eqv(const T& a, const T& b) { return Ser<T>::eq(a, b); }
template<class T> struct Ser<std::complex<T>> { static void put(std::string& o, const std::complex<T>& v) { ser(o, v.real()); ser(o, v.imag()); } static bool eq(const std::complex<T>& a, const std::complex<T>& b) { return eqv(a.real(), b.real()) && eqv(a.imag(), b.imag()); } };
template<class E> struct Ser<OScalar<E>> { static void put(std::string& o, const OScalar<E>& v) { words(const_cast<E&>(v.elem()), [&](auto& w) { o += be(w); }); } static bool eq(const OScalar<E>& a, const OScalar<E>& b) { return bitsEqual(a.elem(), b.elem()); } };
template<class T> struct Ser<multi1d<T>> { static void put(std::string& o, const multi1d<T>& v) { ser(o, (int)v.size()); for (int i = 0; i < v.size(); ++i) ser(o, v[i]); } static bool eq(const multi1d<T>& a, const multi1d<T>& b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (!eqv(a[i], b[i])) return false; return true; } };
// the stated sizes come slowest index first; elements follow with the first stated size running fastest
template<class T> struct Ser<multi2d<T>> { static void put(std::string& o, const multi2d<T>& v) { ser(o, v.size2()); ser(o, v.size1()); for (int i = 0; i < v.size1(); ++i) for (int j = 0; j < v.size2(); ++j) ser(o, v(j, i)); }
  static bool eq(const multi2d<T>& a, const multi2d<T>& b) { if (a.size1() != b.size1() || a.size2() != b.size2()) return false; for (int i = 0; i < a.size1(); ++i) for (int j = 0; j < a.size2(); ++j) if (!eqv(a(j, i), b(j, i))) return false; return true; } };
template<class T> struct Ser<multi3d<T>> { static void put(std::string& o, const multi3d<T>& v) { ser(o, v.size3()); ser(o, v.size2()); ser(o, v.size1()); for (int i = 0; i < v.size1(); ++i) for (int j = 0; j < v.size2(); ++j) for (int k = 0; k < v.size3(); ++k) ser(o, v(k, j, i)); }
  static bool eq(const multi3d<T>& a, const multi3d<T>& b) { if (a.size1() != b.size1() || a.size2() != b.size2() || a.size3() != b.size3()) return false; for (int i = 0; i < a.size1(); ++i) for (int j = 0; j < a.size2(); ++j) for (int k = 0; k < a.size3(); ++k) if (!eqv(a(k, j, i), b(k, j, i))) return false; return true; } };
template<class T> struct Ser<multi4d<T>> { static void put(std::string& o, const multi4d<T>& v) { ser(o, v.size4()); ser(o, v.size3()); ser(o, v.size2()); ser(o, v.size1()); for (int i = 0; i < v.size1(); ++i) for (int j = 0; j < v.size2(); ++j) for (int k = 0; k < v.size3(); ++k) for (int l = 0; l < v.size4(); ++l) ser(o, v(l, k, j, i)); }
  static bool eq(const multi4d<T>& a, const multi4d<T>& b) { if (a.size1() != b.size1() || a.size2() != b.size2() || a.size3() != b.size3() || a.size4() != b.size4()) return false; for (int i = 0; i < a.size1(); ++i) for (int j = 0; j < a.size2(); ++j) for (int k = 0; k < a.size3(); ++k) for (int l = 0; l < a.size4(); ++l) if (!eqv(a(l, k, j, i), b(l, k, j, i))) return false; return true; } };
template<class T> struct Ser<multi5d<T>> { static void put(std::string& o, const multi5d<T>& v) { ser(o, v.size5()); ser(o, v.size4()); ser(o, v.size3()); ser(o, v.size2()); ser(o, v.size1()); for (int i = 0; i < v.size1(); ++i) for (int j = 0; j < v.size2(); ++j) for (int k = 0; k < v.size3(); ++k) for (int l = 0; l < v.size4(); ++l) for (int m = 0; m < v.size5(); ++m) ser(o, v(m, l, k, j, i)); }
  static bool eq(const multi5d<T>& a, const multi5d<T>& b) { if (a.size1() != b.size1() || a.size2() != b.size2() || a.size3() != b.size3() || a.size4() != b.size4() || a.size5() != b.size5()) return false; for (int i = 0; i < a.size1(); ++i) for (int j = 0; j < a.size2(); ++j) for (int k = 0; k < a.size3(); ++k) for (int l = 0; l < a.size4(); ++l) for (int m = 0; m < a.size5(); ++m) if (!eqv(a(m, l, k, j, i), b(m, l, k, j, i))) return false; return true; } };
template<class T> struct Ser<multiNd<T>> { static void put(std::string& o, const multiNd<T>& v) { ser(o, v.size()); for (int i = 0; i < v.numElem(); ++i) ser(o, v.getElem(i)); } static bool eq(const multiNd<T>& a, const multiNd<T>& b) { if (!eqv(a.size(), b.size()) || a.numElem() != b.numElem()) return false; for (int i = 0; i < a.numElem(); ++i) if (!eqv(a.getElem(i), b.getElem(i))) return false; return true; } };
template<class T> struct Ser<std::vector<T>> { static void put(std::string& o, const std::vector<T>& v) { ser(o, (int)v.size()); for (auto& x : v) ser(o, x); } static bool eq(const std::vector<T>& a, const std::vector<T>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!eqv(a[i], b[i])) return false; return true; } };
template<class T> struct Ser<std::list<T>> { static std::vector<T> v(const std::list<T>& l) { return std::vector<T>(l.begin(), l.end()); } static void put(std::string& o, const std::list<T>& l) { ser(o, v(l)); } static bool eq(const std::list<T>& a, const std::list<T>& b) { return eqv(v(a), v(b)); } };
template<class T> struct Ser<Array1dO<T>> { static void put(std::string& o, const Array1dO<T>& l) { ser(o, l.ref()); } static bool eq(const Array1dO<T>& a, const Array1dO<T>& b) { return eqv(a.ref(), b.ref()); } };
template<class A, class B> struct Ser<std::pair<A, B>> { static void put(std::string& o, const std::pair<A, B>& p) { ser(o, p.first); ser(o, p.second); } static bool eq(const std::pair<A, B>& a, const std::pair<A, B>& b) { return eqv(a.first, b.first) && eqv(a.second, b.second); } };
template<class K, class V> struct Ser<std::map<K, V>> { static std::vector<std::pair<K, V>> v(const std::map<K, V>& m) { return std::vector<std::pair<K, V>>(m.begin(), m.end()); } static void put(std::string& o, const std::map<K, V>& m) { ser(o, v(m)); } static bool eq(const std::map<K, V>& a, const std::map<K, V>& b) { return eqv(v(a), v(b)); } };
template<class T> std::string image(const T& v) { std::string o; ser(o, v); return o; }

inline const char* writerName(int k) { static const char* n[] = {"buffer writer", "file writer", "buffer reader-writer", "file reader-writer"}; return n[k]; }
inline const char* readerName(int k) { static const char* n[] = {"buffer reader", "file reader", "buffer reader-writer", "file reader-writer"}; return n[k]; }
struct Out { int k; std::string f; std::unique_ptr<BinaryBufferWriter> bw; std::unique_ptr<BinaryFileWriter> fw; std::unique_ptr<BinaryBufferReaderWriter> brw; std::unique_ptr<BinaryFileReaderWriter> frw;
  Out(int kind, const std::string& file) : k(kind), f(file) { if (k == 0) bw.reset(new BinaryBufferWriter); else if (k == 1) fw.reset(new BinaryFileWriter(f)); else if (k == 2) brw.reset(new BinaryBufferReaderWriter); else frw.reset(new BinaryFileReaderWriter(f, std::ios_base::in | std::ios_base::out | std::ios_base::trunc)); }
  BinaryWriter& w() { if (k == 0) return *bw; if (k == 1) return *fw; if (k == 2) return *brw; return *frw; }
  std::string bytes() { if (k == 0) return bw->str(); if (k == 2) return brw->str(); if (k == 1) fw->close(); else frw->close(); return slurp(f); } };
struct In { int k; std::unique_ptr<BinaryBufferReader> br; std::unique_ptr<BinaryFileReader> fr; std::unique_ptr<BinaryBufferReaderWriter> brw; std::unique_ptr<BinaryFileReaderWriter> frw;
  In(int kind, const std::string& file, const std::string& content, bool have = false) : k(kind) { if ((k & 1) && !have) spew(file, content); if (k == 0) br.reset(new BinaryBufferReader(content)); else if (k == 1) fr.reset(new BinaryFileReader(file)); else if (k == 2) brw.reset(new BinaryBufferReaderWriter(content)); else frw.reset(new BinaryFileReaderWriter(file)); }
  BinaryReader& r() { if (k == 0) return *br; if (k == 1) return *fr; if (k == 2) return *brw; return *frw; } };
} // namespace vf
#endif
