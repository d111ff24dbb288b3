// C22: byte order, CRC-32 and the small utilities, over complete bounded input spaces.
#include "bio.h"
#include <sys/mman.h>
using namespace QDP; using namespace vf;
static std::string rev(const std::string& s, size_t sz) { std::string o(s); for (size_t i = 0; i + sz <= s.size(); i += sz) for (size_t k = 0; k < sz; ++k) o[i + k] = s[i + sz - 1 - k]; return o; }
static const int SZ[] = {1, 2, 4, 8, 16};
static bool swapOne(const std::string& data, size_t sz, size_t n, int off, const std::string& in) {
  std::string buf = std::string(32 + off, '\xA5') + data + std::string(32, '\x5A'), keep = buf; char* p = &buf[0]; char* al = (char*)(((uintptr_t)p + 15) & ~(uintptr_t)15); std::vector<char> area(buf.size() + 64); al = (char*)(((uintptr_t)area.data() + 15) & ~(uintptr_t)15); memcpy(al, keep.data(), keep.size()); eval(2); transition(2);
  QDPUtil::byte_swap(al + 32 + off, sz, n); std::string want = keep; want.replace(32 + off, sz * n, rev(data.substr(0, sz * n), sz)); if (!check(std::string(al, keep.size()) == want, fmt("byte order, element size %zu", sz), in + " got " + hex(std::string(al + 32 + off, data.size())) + " from " + hex(data))) return false;
  QDPUtil::byte_swap(al + 32 + off, sz, n); return check(std::string(al, keep.size()) == keep, fmt("byte order is its own inverse, element size %zu", sz), in);
}
static void swaps(int q) {
  int sz = SZ[q]; std::string in = fmt("size %d", sz); cur(in);
  for (int n = 0; n <= 70; ++n) for (int off = 0; off < 16; ++off) { std::string d(sz * (n + 1), 0); for (size_t i = 0; i < d.size(); ++i) d[i] = (char)(i * 7 + 3 + (i >> 8)); cur(in + fmt(" count %d offset %d", n, off)); state(hash(fmt("%d %d %d", sz, n, off))); if (!swapOne(d, sz, n, off, in + fmt(" count %d offset %d", n, off))) return; trace(); }
  for (int e = 0; e < 3; ++e) for (int b = 0; b < sz; ++b) for (int v = 0; v < 256; ++v) for (int bg : {0, 0xff}) { std::string d(sz * 3, (char)bg); d[e * sz + b] = (char)v; if (!swapOne(d, sz, 3, 0, in + fmt(" byte %d of element %d is %d", b, e, v))) return; }
  if (sz == 2) for (int x = 0; x < 65536; ++x) { std::string d{(char)(x & 255), (char)(x >> 8)}; if (!swapOne(d, 2, 1, 0, in)) return; }
  if (sz == 4) { static const unsigned char A[] = {0, 1, 2, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff}; for (int x = 0; x < 10000; ++x) { std::string d{(char)A[x % 10], (char)A[x / 10 % 10], (char)A[x / 100 % 10], (char)A[x / 1000]}; if (!swapOne(d, 4, 1, 0, in)) return; } }
  // to and from a C stream
  for (int n = 0; n <= 20; ++n) for (int cut = 0; cut <= n * sz; ++cut) { std::string f = scratch() + fmt("/c22.%d", (int)getpid()), d(sz * n, 0); for (size_t i = 0; i < d.size(); ++i) d[i] = (char)(i * 11 + 5); cur(in + fmt(" stream count %d cut %d", n, cut)); eval(2); transition(2);
    if (cut == n * sz) { std::string k = d; FILE* o = fopen(f.c_str(), "wb"); size_t w = QDPUtil::bfwrite(&d[0], sz, n, o); fclose(o); check(w == (size_t)n && d == k && slurp(f) == rev(d, sz), fmt("big-endian stream write, element size %d", sz), in); }
    spew(f, rev(d, sz).substr(0, cut)); std::string g(sz * n + 1, '\x77'); FILE* r = fopen(f.c_str(), "rb"); size_t m = QDPUtil::bfread(&g[0], sz, n, r); fclose(r); unlink(f.c_str()); size_t whole = cut / sz; check(m == whole && g.substr(0, whole * sz) == d.substr(0, whole * sz) && g[sz * n] == '\x77', fmt("big-endian stream read, element size %d", sz), in + fmt(" count %d cut %d", n, cut)); }
  sample(in + ": every count to 70 at every alignment, every value of every byte");
}
static void badSizes() { for (int sz = 0; sz <= 33; ++sz) { bool ok = false; for (int s : SZ) ok = ok || s == sz; if (ok) continue; std::string in = fmt("size %d", sz); cur(in); eval(); transition(); state(hash(in)); ChildResult r = child([&](int fd) { char b[256]; memset(b, 1, sizeof b); b[0] = 9; std::string k(b, sizeof b); QDPUtil::byte_swap(b, sz, 2); std::string w = k; if (sz) w.replace(0, 2 * sz, rev(k.substr(0, 2 * sz), sz)); put(fd, std::string(b, sizeof b) == w ? "swapped" : "wrong"); _exit(0); }); check((r.exited && r.code != 0) || r.sig == SIGABRT || r.out == "swapped", "an element size that is not handled passes as handled", in); trace(); } }
// more elements than 32 bits count: a window of memory mapped many times over
static char* window(size_t total, size_t chunk, int& fd) { fd = memfd_create("c22", 0); if (fd < 0 || ftruncate(fd, chunk)) return nullptr; char* p = (char*)mmap(0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return nullptr; for (size_t o = 0; o < total; o += chunk) if (mmap(p + o, std::min(chunk, total - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return nullptr; return p; }
static void huge(int sz) { const size_t C = 1 << 20, n = (1ull << 32) + (sz == 2 ? 5 : 3), total = ((n * sz + C - 1) / C) * C; int fd; cur(fmt("size %d count %zu", sz, n)); char* p = window(total, C, fd); if (!p) { extra("huge-skipped"); return; } for (size_t i = 0; i < C; ++i) p[i] = (char)(i * 7 + (i >> 8)); std::string k(p, C); QDPUtil::byte_swap(p, sz, n); eval(); transition(); trace(); state(hash(fmt("huge %d", sz)));
  // every full pass over the window swaps it once; the tail once more in part
  size_t passes = n * sz / C, tail = n * sz % C; std::string w = passes & 1 ? rev(k, sz) : k; w.replace(0, tail, rev(w.substr(0, tail), sz)); check(std::string(p, C) == w, fmt("byte order, element size %d, more than 2^32 elements", sz)); munmap(p, total); close(fd); }
// counts around the sizes at which an implementation may change its method
static void many(int sz) { for (size_t n : {71, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10007, 32767, 32768, 32769, 65535, 65536, 65537, 100003, 1048575, 1048576, 1048577, 3000001}) { std::string in = fmt("size %d count %zu", sz, n), d(sz * n, 0); cur(in); for (size_t i = 0; i < d.size(); ++i) d[i] = (char)(i * 7 + 3 + (i >> 8) * 5 + (i >> 16)); state(hash(in)); trace(); eval(2); transition(2); std::string g = d, w = rev(d, sz); QDPUtil::byte_swap(&g[0], sz, n); if (!check(g == w, fmt("byte order of many elements, element size %d", sz), in)) continue; QDPUtil::byte_swap(&g[0], sz, n); check(g == d, fmt("byte order of many elements is its own inverse, element size %d", sz), in); } }
static u32 T8[8][256];
static u32 fast(u32 c, const unsigned char* p, size_t n) { c = ~c; while (n >= 8) { u32 a, b; memcpy(&a, p, 4); memcpy(&b, p + 4, 4); a ^= c; c = T8[7][a & 255] ^ T8[6][a >> 8 & 255] ^ T8[5][a >> 16 & 255] ^ T8[4][a >> 24] ^ T8[3][b & 255] ^ T8[2][b >> 8 & 255] ^ T8[1][b >> 16 & 255] ^ T8[0][b >> 24]; p += 8; n -= 8; } while (n--) c = T8[0][(c ^ *p++) & 255] ^ (c >> 8); return ~c; }
static void crcInit() { for (int i = 0; i < 256; ++i) { u32 c = i; for (int k = 0; k < 8; ++k) c = (c >> 1) ^ (c & 1 ? 0xEDB88320u : 0); T8[0][i] = c; } for (int i = 0; i < 256; ++i) for (int t = 1; t < 8; ++t) T8[t][i] = T8[0][T8[t - 1][i] & 255] ^ (T8[t - 1][i] >> 8); }
static u32 lib(u32 c, const void* p, size_t n, int form) { return form ? QDPUtil::crc32(c, (const char*)p, n) : QDPUtil::crc32(c, (const unsigned char*)p, n); }
static void crcs(int part) {
  crcInit(); std::vector<u32> init{0, ~0u, 1, 0x80000000u, 0xdeadbeefu, 0xEDB88320u}; for (int b = 0; b < 32; ++b) init.push_back(1u << b);
  for (int len = 0; len <= 3; ++len) { long tot = 1l << 8 * len; long step = len == 3 && !thorough() ? 7 : 1; for (long x = part; x < tot; x += 8 * step) { unsigned char b[3] = {(unsigned char)x, (unsigned char)(x >> 8), (unsigned char)(x >> 16)}; int ni = len < 2 ? init.size() : len == 2 ? 6 : 1; for (int i = 0; i < ni; ++i) { eval(); transition(); if (!check(lib(init[i], b, len, i & 1) == fast(init[i], b, len), "CRC-32 of a short string", hex(std::string((char*)b, len)) + fmt(" from %08x", init[i]))) return; } state(hash(b, len, len)); } if (len == 0 && part) continue; }
  trace(); std::vector<unsigned char> area(4096 + 64);
  for (int len = 0; len <= 200; ++len) for (int off = 0; off < 16; ++off) { if ((len + off) % 8 != part) continue; unsigned char* p = (unsigned char*)(((uintptr_t)area.data() + 15) & ~(uintptr_t)15) + off; for (int i = 0; i < len; ++i) p[i] = i * 37 + 11; std::string in = fmt("length %d offset %d", len, off); cur(in); state(hash(in)); std::string s((char*)p, len); eval(2); transition(2); if (!check(fast(0, p, len) == refcrc(0, s), "reference", in)) return; if (!check(lib(0, p, len, 0) == refcrc(0, s) && lib(0x12345678, p, len, 1) == refcrc(0x12345678, s), "CRC-32 of a string", in)) return;
    for (int i = 0; i < len; ++i) { memset(p, 0, len); for (int b = 0; b < 8; ++b) { p[i] = 1 << b; eval(); transition(); if (off < 2 && !check(lib(0, p, len, b & 1) == fast(0, p, len), "CRC-32 of a single bit", in + fmt(" bit %d", i * 8 + b))) return; } } trace(); }
  for (int len : {0, 1, 5, 8, 9, 16, 31, 64, 100}) { std::string s(len, 0); for (int i = 0; i < len; ++i) s[i] = (char)(i * 59 + len); u32 w = refcrc(0, s); for (int i = 0; i <= len; ++i) for (int j = i; j <= len; ++j) { if ((i + j) % 8 != part) continue; eval(); transition(3); u32 c = lib(0, s.data(), i, 0); c = lib(c, s.data() + i, j - i, 1); c = lib(c, s.data() + j, len - j, 0); if (!check(c == w, "CRC-32 in pieces", fmt("length %d split at %d, %d", len, i, j))) return; } trace(); }
  if (!part) { check(refcrc(0, "123456789") == 0xCBF43926u && lib(0, "123456789", 9, 1) == 0xCBF43926u, "CRC-32 check value"); check(!QDPUtil::big_endian(), "this machine's byte order"); u32 z = QDPUtil::crc32(77, (const char*)nullptr, 5); check(z == 0, "CRC-32 start value"); eval(3); }
}
static void crcMany(int part) { crcInit(); std::vector<unsigned char> b(17000000); for (size_t i = 0; i < b.size(); ++i) b[i] = (unsigned char)(i * 31 + (i >> 8) * 7 + (i >> 16)); std::vector<size_t> ls; for (size_t n = 201; n <= 4200; ++n) ls.push_back(n); for (size_t c : {8192, 16384, 32768, 65536, 131072, 262144, 1048576, 16777216}) for (int d = -9; d <= 9; ++d) ls.push_back(c + d);
  for (size_t q = part; q < ls.size(); q += 4) { size_t n = ls[q]; std::string in = fmt("length %zu", n); cur(in); state(n); trace(); eval(2); transition(3); u32 w = fast(5, &b[0], n); if (!check(lib(5, &b[0], n, q & 1) == w, "CRC-32 of a long string", in)) return; size_t k = n * (q % 7) / 7; if (!check(lib(lib(5, &b[0], k, 0), &b[k], n - k, 1) == w, "CRC-32 of a long string in pieces", in + fmt(" split at %zu", k))) return; } }
static void crcHuge() { crcInit(); const size_t C = 1 << 20, n = (1ull << 32) + 12345, total = ((n + C - 1) / C) * C; int fd; cur("CRC of more than 4 GB"); char* p = window(total, C, fd); if (!p) { extra("huge-skipped"); return; } for (size_t i = 0; i < C; ++i) p[i] = (char)(i * 7 + (i >> 8)); eval(); transition(); trace(); state(1); check(lib(0, p, n, 0) == fast(0, (unsigned char*)p, n), "CRC-32 of more than 2^32 bytes"); munmap(p, total); close(fd); }
static void lengths() {      // bounded string length next to an unmapped page
  size_t (*volatile len)(const char*, size_t) = strnlen; char* m = (char*)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + 4096, 4096, PROT_NONE);
  for (int n = 0; n <= 12; ++n) for (int bits = 0; bits < 1 << n; ++bits) { char* s = m + 4096 - n; for (int i = 0; i < n; ++i) s[i] = bits >> i & 1 ? "a\xff\x01z"[i & 3] : 0; int z = n; for (int i = n - 1; i >= 0; --i) if (!s[i]) z = i; for (int mx = 0; mx <= n + 3; ++mx) { if (mx > n && z == n) continue; cur(fmt("bounded length of %d bytes, pattern %x, limit %d", n, bits, mx)); eval(); transition(); check((int)len(s, mx) == std::min(mx, z), "bounded string length", fmt("%d bytes pattern %x limit %d", n, bits, mx)); } state(hash(fmt("%d %d", n, bits))); } trace();
  munmap(m, 8192); const size_t B = 1 << 18; m = (char*)mmap(0, B + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + B, 4096, PROT_NONE); memset(m, 'x', B);
  for (size_t n : {13, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 200000}) for (int z = 0; z < 2; ++z) for (int mx : {-1, 0, 1}) { char* s = m + B - n; if (z) m[B - 1] = 0; else if (mx == 1) continue; size_t lim = n - z + mx, want = std::min(lim, n - z); cur(fmt("bounded length %zu limit %zu", n, lim)); eval(); transition(); check(len(s, lim) == want, "bounded string length, long", fmt("%zu bytes, terminated %d, limit %zu", n, z, lim)); m[B - 1] = 'x'; }
}
static void unique() { for (int n = 0; n <= 8; ++n) { int k = n <= 6 ? 4 : 3; long tot = 1; for (int i = 0; i < n; ++i) tot *= k; for (long q = 0; q < tot; ++q) { multi1d<int> l(n); std::vector<int> w; long r = q; std::string in = "list"; for (int i = 0; i < n; ++i) { l[i] = r % k; r /= k; in += fmt(" %d", l[i]); if (std::find(w.begin(), w.end(), l[i]) == w.end()) w.push_back(l[i]); } cur(in); eval(); transition(); state(hash(in)); multi1d<int> d = uniquify_list(l); bool ok = d.size() == (int)w.size(); for (size_t i = 0; ok && i < w.size(); ++i) ok = d[i] == w[i]; check(ok, "list of distinct entries", in); } } trace();
  for (int n : {16, 17, 64, 100, 255, 256, 257, 1000, 3000}) for (int k : {1, 2, 3, 16, 17, 33, 64, 100, 257, 1000, 100000}) for (int ord = 0; ord < 3; ++ord) { multi1d<int> l(n); std::vector<int> w; std::set<int> seen; std::string in = fmt("list of %d, %d values, order %d", n, k, ord); cur(in); for (int i = 0; i < n; ++i) { l[i] = ord == 0 ? i % k : ord == 1 ? (int)((long)i * 7919 % k) - k / 2 : (n - 1 - i) / 2 % k; if (seen.insert(l[i]).second) w.push_back(l[i]); } eval(); transition(); state(hash(in)); multi1d<int> d = uniquify_list(l); bool ok = d.size() == (int)w.size(); for (size_t i = 0; ok && i < w.size(); ++i) ok = d[i] == w[i]; check(ok, "list of distinct entries, long", in); } }
int main(int argc, char** argv) {
  init(argc, argv); startup(); Pool pool(200);
  for (int q = 0; q < 5; ++q) pool.run("many", [=] { many(SZ[q]); }); for (int q = 0; q < 4; ++q) pool.run("crc-many", [=] { crcMany(q); });
  for (int q = 0; q < 5; ++q) pool.run("swap", [=] { swaps(q); }); pool.run("sizes", [] { badSizes(); }); for (int p = 0; p < 8; ++p) pool.run("crc", [=] { crcs(p); });
  pool.run("length", [] { lengths(); }); pool.run("unique", [] { unique(); });
  if (!argc || argc < 2) { for (int sz : {1, 2, 4}) pool.run("huge", [=] { huge(sz); }); if (thorough()) for (int sz : {8, 16}) pool.run("huge", [=] { huge(sz); }); pool.run("crc-huge", [] { crcHuge(); }); }
  pool.drain(); return finish();
}
