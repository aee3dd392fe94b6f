// SHA-2 against an independent implementation of FIPS 180.
#include "mc.h"
#include <icl_core_crypt/Sha2.h>
#include "sha2_ref.h"
#include <cstring>
#include <memory>
using std::string; using namespace icl_core::crypt;
static const int KIND[] = { 224, 256, 384, 512 };

static string reference(int kind, const string& m)
{
  bool wide = kind > 256; int W = wide ? 64 : 32; int B = wide ? 128 : 64; int R = wide ? 80 : 64;
  uint64_t mask = wide ? ~0ull : 0xffffffffull, h[8];
  for (int i = 0; i < 8; ++i)
    h[i] = kind == 512 ? REF_H512[i] : kind == 384 ? REF_H384[i] : kind == 256 ? REF_H512[i] >> 32 : REF_H384[i] & 0xffffffffull;
  string p = m; p += char(0x80); while (p.size() % B != size_t(B - B / 8)) p += '\0';
  uint64_t bits = uint64_t(m.size()) * 8; if (wide) p.append(8, '\0');
  for (int i = 7; i >= 0; --i) p += char(bits >> (8 * i) & 255);
  auto rot = [&](uint64_t x, int n) { return ((x >> n) | (x << (W - n))) & mask; };
  for (size_t o = 0; o < p.size(); o += B)
  {
    uint64_t w[80];
    for (int t = 0; t < 16; ++t) { w[t] = 0; for (int k = 0; k < W / 8; ++k) w[t] = w[t] << 8 | (unsigned char)p[o + t * (W / 8) + k]; }
    for (int t = 16; t < R; ++t)
    {
      uint64_t s0 = wide ? rot(w[t-15], 1) ^ rot(w[t-15], 8) ^ (w[t-15] >> 7) : rot(w[t-15], 7) ^ rot(w[t-15], 18) ^ (w[t-15] >> 3);
      uint64_t s1 = wide ? rot(w[t-2], 19) ^ rot(w[t-2], 61) ^ (w[t-2] >> 6) : rot(w[t-2], 17) ^ rot(w[t-2], 19) ^ (w[t-2] >> 10);
      w[t] = (w[t-16] + s0 + w[t-7] + s1) & mask;
    }
    uint64_t v[8]; memcpy(v, h, sizeof v);
    for (int t = 0; t < R; ++t)
    {
      uint64_t S1 = wide ? rot(v[4], 14) ^ rot(v[4], 18) ^ rot(v[4], 41) : rot(v[4], 6) ^ rot(v[4], 11) ^ rot(v[4], 25);
      uint64_t S0 = wide ? rot(v[0], 28) ^ rot(v[0], 34) ^ rot(v[0], 39) : rot(v[0], 2) ^ rot(v[0], 13) ^ rot(v[0], 22);
      uint64_t t1 = (v[7] + S1 + ((v[4] & v[5]) ^ (~v[4] & v[6])) + (wide ? REF_K[t] : REF_K[t] >> 32) + w[t]) & mask;
      uint64_t t2 = (S0 + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]))) & mask;
      for (int i = 7; i > 0; --i) v[i] = v[i-1];
      v[4] = (v[4] + t1) & mask; v[0] = (t1 + t2) & mask;
    }
    for (int i = 0; i < 8; ++i) h[i] = (h[i] + v[i]) & mask;
  }
  string out; for (int i = 0; i < kind / W; ++i) out += mc::format(wide ? "%016llx" : "%08llx", (unsigned long long)h[i]);
  return out;
}
static string vecMsg(int n) { string s; for (int i = 0; i < n; ++i) s += char((i * 31 + 7 * (i >> 8) + n) & 255); return s; }
static string text(size_t n, int seed) { string s(n, 'x'); for (size_t i = 0; i < n; ++i) s[i] = char(1 + (i * 37 + seed * 11 + i / 64) % 255); return s; }

struct Any { virtual ~Any() { } virtual void cstr(const char*) = 0; virtual void str(const string&) = 0; virtual void mem(const void*, size_t) = 0; virtual void clear() = 0; virtual void fin() = 0; virtual string hex() = 0; virtual Any* copy() = 0; };
template <class S> struct Wrap : Any
{
  S s; void cstr(const char* p) { S& r = s.process(p); MC_CHECK(&r == &s, "chain", "process returns another object"); } void str(const string& p) { s.process(p); } void mem(const void* p, size_t n) { s.process(p, n); }
  void clear() { s.clear(); } void fin() { s.finalize(); } string hex() { return s.getHexDigest(); } Any* copy() { return new Wrap(*this); }
};
static Any* make(int kind) { switch (kind) { case 224: return new Wrap<Sha224>; case 256: return new Wrap<Sha256>; case 384: return new Wrap<Sha384>; default: return new Wrap<Sha512>; } }
static void feed(Any& a, int how, const char* p, size_t n)
{ // exact-size heap copies so that reading beyond the piece is an error
  if (how == 0) { char* c = (char*)malloc(n ? n : 1); memcpy(c, p, n); a.mem(c, n); free(c); }
  else if (how == 1) { string s(p, n); a.str(s); }
  else { char* c = (char*)malloc(n + 1); memcpy(c, p, n); c[n] = 0; a.cstr(c); free(c); }
  mc::transition();
}
static void finish(Any& a, int kind, const string& m, const char* what)
{
  a.fin(); string d = a.hex(), w = reference(kind, m);
  MC_CHECK(d == w, what, "SHA-%d of %zu bytes is %s, expected %s", kind, m.size(), d.c_str(), w.c_str());
  mc::state(mc::hashStr(d));
}
static void oracle()
{
  int i = mc::choose(int(sizeof(REF_VECS) / sizeof(*REF_VECS)), "vector"), k = mc::choose(4, "kind");
  string m = vecMsg(REF_VECS[i].len);
  MC_CHECK(reference(KIND[k], m) == REF_VECS[i].d[k], "reference", "the reference implementation is wrong for length %d", REF_VECS[i].len);
  std::unique_ptr<Any> a(make(KIND[k])); feed(*a, 0, m.data(), m.size()); a->fin();
  MC_CHECK(a->hex() == REF_VECS[i].d[k], "vector", "SHA-%d of %d bytes is %s", KIND[k], REF_VECS[i].len, a->hex().c_str());
}
// every length around the block structure, one piece, every input function, after every kind of earlier use
static void lengths()
{
  int kind = KIND[mc::choose(4, "kind")]; int n = mc::choose(mc::thorough() ? 1025 : 401, "length"), how = mc::choose(3, "function"), before = mc::choose(4, "earlier use");
  string m = text(n, kind + n); std::unique_ptr<Any> a(make(kind));
  if (before == 1) { feed(*a, 0, "earlier", 7); a->clear(); }
  if (before == 2) { string e = text(150, 3); feed(*a, 1, e.data(), e.size()); a->fin(); a->clear(); }
  if (before == 3) { a->fin(); a->hex(); a->clear(); a->clear(); }
  feed(*a, how, m.data(), m.size());
  finish(*a, kind, m, before ? "digest-after-clear" : "digest");
  string again = a->hex(); MC_CHECK(again == a->hex(), "hex-stable", "two reads of the digest differ");
}
// every split into up to three pieces at the interesting offsets, every combination of input functions
static void pieces()
{
  int kind = KIND[mc::choose(4, "kind")]; int B = kind > 256 ? 128 : 64;
  std::vector<int> cut = { 0, 1, B / 2, B - 17, B - 16, B - 9, B - 8, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1 };
  if (mc::thorough()) { for (int c : { 2, 3, B - 2, B + 2, 3 * B - 1, 3 * B }) cut.push_back(c); }
  string m; std::unique_ptr<Any> a(make(kind)); int n = 3;
  for (int i = 0; i < n; ++i)
  {
    int len = cut[mc::choose(int(cut.size()), "piece")], how = mc::choose(3, "function");
    string p = text(len, i * 5 + len); feed(*a, how, p.data(), p.size()); m += p;
  }
  bool viaCopy = mc::flip("finish a copy");
  if (viaCopy) { std::unique_ptr<Any> b(a->copy()); finish(*b, kind, m, "digest-of-copy"); b->clear(); }
  finish(*a, kind, m, "digest-pieces");
}
// all lengths and all single split points
static void splits()
{
  int kind = KIND[mc::choose(4, "kind")]; int n = mc::choose(mc::thorough() ? 420 : 290, "length"), how = mc::choose(9, "functions"); string m = text(n, kind);
  string w = reference(kind, m);
  for (int i = 0; i <= n; ++i)
  {
    std::unique_ptr<Any> a(make(kind)); feed(*a, how % 3, m.data(), i); feed(*a, how / 3, m.data() + i, n - i); a->fin();
    MC_CHECK(a->hex() == w, "digest-split", "SHA-%d of %d bytes split at %d (functions %d) is %s, expected %s", kind, n, i, how, a->hex().c_str(), w.c_str());
  }
  mc::state(mc::hashStr(w));
}
// every byte value at every position of a block
static void bytes()
{
  int kind = KIND[mc::choose(4, "kind")], pos = mc::choose(128, "position"); string m(130, '\0');
  for (int v = 0; v < 256; v += mc::thorough() ? 1 : 5)
  {
    m[pos] = char(v); std::unique_ptr<Any> a(make(kind)); feed(*a, v & 1, m.data(), m.size()); finish(*a, kind, m, "digest-byte");
  }
}
// more than 2^32 bits
static void longMessage()
{
  int k = mc::choose(4, "kind"); std::unique_ptr<Any> a(make(KIND[k])); std::vector<char> big(1 << 22, 'a'); long rest = REF_LONG;
  while (rest > 0) { size_t n = size_t(std::min<long>(rest, long(big.size()))); a->mem(big.data(), n); rest -= long(n); mc::transition(); }
  a->fin(); MC_CHECK(a->hex() == REF_LONG_D[k], "digest-long", "SHA-%d of %ld bytes is %s, expected %s", KIND[k], REF_LONG, a->hex().c_str(), REF_LONG_D[k]);
}
int main(int argc, char** argv)
{
  return mc::run(argc, argv, { {"oracle", oracle}, {"lengths", lengths}, {"pieces", pieces}, {"splits", splits}, {"bytes", bytes}, mc::Scenario("beyond-2^32-bits", longMessage).timeout(200) });
}
