// Compatibility names of the core library: the same operation under its old and its current name, over enumerated arguments
// and histories.
#include "deprecated.h"
#include <algorithm>
#include <map>
#include <set>
#include <queue>
#include <memory>
#include <functional>
#include <iostream>
#include <cstring>
#include <fstream>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <pthread.h>
#include <boost/regex.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <boost/spirit/include/classic.hpp>
#include <icl_core/BaseTypes.h>
#include <icl_core/BitfieldHelper.h>
#include <icl_core/EnumHelper.h>
#include <icl_core/KeyValueDirectory.h>
#include <icl_core/Noncopyable.h>
#include <icl_core/RingBuffer.h>
#include <icl_core/SchemeParser.h>
#include <icl_core/SearchableStack.h>
#include <icl_core/SequenceNumber.h>
#include <icl_core/StringHelper.h>
#include <icl_core/TimeSpan.h>
#include <icl_core/TimeStamp.h>
#include <icl_core/os_fs.h>
#include <icl_core/os_lxrt.h>
#include <icl_core/os_thread.h>
#include <icl_core/tList.h>
#include <icl_core/tMap.h>
#include <icl_core/tNoncopyable.h>
#include <icl_core/tQueue.h>
#include <icl_core/tRingBuffer.h>
#include <icl_core/tSchemeParser.h>
#include <icl_core/tSearchableStack.h>
#include <icl_core/tSequenceNumber.h>
#include <icl_core/tString.h>
#include <icl_core/tTimeSpan.h>
#include <icl_core/tTimeStamp.h>
#include <icl_core/tVector.h>
using std::string; using icl_core::TimeBase; using icl_core::TimeSpan; using icl_core::TimeStamp;
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

static bool g_fake; static timespec g_now;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { timespec t = g_now; if (!g_fake) syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
extern "C" int clock_gettime(clockid_t c, timespec* t) noexcept { if (g_fake) { *t = g_now; return 0; } return int(syscall(SYS_clock_gettime, c, t)); }

namespace dep {
static string repr(const TimeBase& t) { return std::to_string(t.tbSec()) + "s" + std::to_string(t.tbNSec()) + "ns"; }
static string repr(const TimeSpan& t) { return std::to_string(t.tsSec()) + "s" + std::to_string(t.tsNSec()) + "ns"; }
static string repr(const TimeStamp& t) { return std::to_string(t.tsSec()) + "s" + std::to_string(t.tsNSec()) + "ns"; }
}
static const int64_t SECS[] = { 0, 1, 59, 60, 3599, 3600, 86399, 86400, 951827696, 1467849600, 2147483647ll, 4102444800ll, -1, -61, -86401 };
static const int64_t NANOS[] = { 0, 1, 999, 1000, 999999, 1000000, 123456789, 999999999 };

// ---------------------------------------------------------------- times
struct Normal : TimeSpan { Normal(int64_t s, int64_t n) : TimeSpan(s, n) { } using TimeBase::normalizeTime; using TimeBase::NormalizeTime; using TimeBase::secs; using TimeBase::nsecs; using TimeBase::tbSec; using TimeBase::TbSec; using TimeBase::tbNSec; using TimeBase::TbNSec; using TimeBase::systemTimespec; using TimeBase::SystemTimespec;
  using TimeBase::maxTime; using TimeBase::MaxTime; using TimeBase::fromTimespec; using TimeBase::FromTimespec; };
static void spans()
{
  int64_t s = mc::pick(SECS, "s"), n = mc::pick(NANOS, "ns"); if (s < 0) n = -n;
  TimeSpan t(s, n);
  SAME("span", t.days(), t.Days()); SAME("span", t.hours(), t.Hours()); SAME("span", t.minutes(), t.Minutes()); SAME("span", t.seconds(), t.Seconds());
  SAME("span", t.milliSeconds(), t.MilliSeconds()); SAME("span", t.microSeconds(), t.MicroSeconds()); SAME("span", t.nanoSeconds(), t.NanoSeconds());
  Normal h(s, n); SAME("span", h.tbSec(), h.TbSec()); SAME("span", h.tbNSec(), h.TbNSec()); SAME("span", h.systemTimespec(), h.SystemTimespec()); SAME("span", t.timespec(), t.Timespec());
  SAME("span", h.maxTime(), h.MaxTime()); { Normal x(1, 2), y(1, 2); timespec ts; ts.tv_sec = s; ts.tv_nsec = long(n); SAME_DO("span-set", x.fromTimespec(ts), y.FromTimespec(ts)); SAME("span-set", TimeSpan(x), TimeSpan(y)); }
  SAME("span", t.tsSec(), t.TsSec()); SAME("span", t.tsNSec(), t.TsNSec()); SAME("span", t.tsUSec(), t.TsUSec());
  SAME("span", t.toMSec(), t.ToMSec()); SAME("span", t.toUSec(), t.ToUSec()); SAME("span", t.toNSec(), t.ToNSec()); SAME("span", abs(t), Abs(t));
  int64_t v = s * 3 + n;
  TimeSpan a(5, 6), b(5, 6);
  SAME("span-set", a.fromSec(v), b.FromSec(v)); SAME("span-set", a, b); MC_CHECK(&b.FromSec(v) == &b && &b.FromMSec(v) == &b && &b.FromUSec(v) == &b, "span-set", "the compatibility setters return another object");
  SAME("span-set", a.fromMSec(v), b.FromMSec(v)); SAME("span-set", a, b); SAME("span-set", a.fromUSec(v), b.FromUSec(v)); SAME("span-set", a, b);
  Normal c(s, n), d(s, n); c.secs = d.secs = s; c.nsecs = d.nsecs = int32_t(n) * 2; SAME_DO("normalize", c.normalizeTime(), d.NormalizeTime()); SAME("normalize", TimeSpan(c), TimeSpan(d));
  icl_core::tTimeSpan e(s, n); SAME("span", t, e); mc::state(mc::mix(uint64_t(s), uint64_t(n)));
}
static void stamps()
{
  int64_t s = mc::pick(SECS, "s"), n = mc::pick(NANOS, "ns"); if (!(s >= 0)) mc::prune();
  TimeStamp t(s, n);
  SAME("stamp", t.days(), t.Days()); SAME("stamp", t.hours(), t.Hours()); SAME("stamp", t.minutes(), t.Minutes()); SAME("stamp", t.seconds(), t.Seconds());
  SAME("stamp", t.milliSeconds(), t.MilliSeconds()); SAME("stamp", t.microSeconds(), t.MicroSeconds()); SAME("stamp", t.nanoSeconds(), t.NanoSeconds());
  SAME("stamp", t.timespec(), t.Timespec()); SAME("stamp", t.systemTimespec(), t.SystemTimespec());
  SAME("stamp", t.tsSec(), t.TsSec()); SAME("stamp", t.tsUSec(), t.TsUSec()); SAME("stamp", t.tsNSec(), t.TsNSec());
  SAME("stamp-text", t.formatIso8601(), t.FormatIso8601());
  static const char* const FMT[] = { "%Y-%m-%d %H:%M:%S", "%j %Z %z", "%%", "", "%F %T of %Y" }; static const char* const ZONES[] = { "UTC0", "XXX-5:30", "CET-1CEST,M3.5.0,M10.5.0/3" };
  setenv("TZ", mc::pick(ZONES, "zone"), 1); tzset(); const char* f = mc::pick(FMT, "format"); static const size_t LEN[] = { 64, 20, 5, 1 }; size_t len = mc::pick(LEN, "length");
  char a[80], b[80]; memset(a, 0x55, sizeof a); memset(b, 0x55, sizeof b);
  SAME_DO("stamp-text", t.strfTime(a, len, f), t.Strftime(b, len, f)); MC_CHECK(!memcmp(a, b, sizeof a), "stamp-text", "Strftime(%s, length %zu) leaves another buffer", f, len);
  memset(a, 0x55, sizeof a); memset(b, 0x55, sizeof b);
  SAME_DO("stamp-text", t.strfLocaltime(a, len, f), t.StrfLocaltime(b, len, f)); MC_CHECK(!memcmp(a, b, sizeof a), "stamp-text", "StrfLocaltime(%s, length %zu) leaves another buffer", f, len);
  icl_core::tTimeStamp e(s, n); SAME("stamp", t, e); mc::state(mc::mix(uint64_t(s), uint64_t(n)));
}
static void clocks()
{
  g_now.tv_sec = mc::pick(SECS, "s"); g_now.tv_nsec = long(mc::pick(NANOS, "ns")); if (!(g_now.tv_sec >= 0)) mc::prune(); g_fake = true;
  static const uint64_t MS[] = { 0, 1, 999, 1000, 1001, 86400000, 4294967296ull }; uint64_t ms = mc::pick(MS, "ms");
  SAME("clock", TimeStamp::now(), TimeStamp::Now()); SAME("clock", TimeStamp::futureMSec(ms), TimeStamp::FutureMSec(ms)); SAME("clock", TimeStamp::maxTime(), TimeStamp::MaxTime());
  TimeStamp a(1, 2), b(1, 2); SAME("clock", a.fromNow(), b.FromNow()); SAME("clock", a, b); MC_CHECK(&b.FromNow() == &b, "clock", "FromNow returns another object");
  g_fake = false; mc::transition();
}
// ---------------------------------------------------------------- ring buffer
template <typename B> static string ring(const B& b) { string r = std::to_string(b.Size()) + "/" + std::to_string(b.Capacity()); for (size_t i = 0; i < b.Size(); ++i) r += "," + std::to_string(b.At(i)); return r; }
static string ringNow(const icl_core::RingBuffer<int>& b) { string r = std::to_string(b.size()) + "/" + std::to_string(b.capacity()); for (size_t i = 0; i < b.size(); ++i) r += "," + std::to_string(b.at(i)); return r; }
static void rings()
{
  typedef icl_core::RingBuffer<int> R; typedef icl_core::tRingBuffer<int> T;
  size_t cap = size_t(mc::choose(4, "capacity")); R a(cap), b(cap), a2(1), b2(1); T c(cap), c2(1); int depth = mc::thorough() ? 5 : 4;
  for (int i = 0; i < depth; ++i)
  {
    int op = mc::choose(11, "op"); string x, y, z; int v = 10 + i;
    switch (op)
    {
      case 0: x = dep::outcome([&] { a.write(v); return "ok"; }); y = dep::outcome([&] { b.Write(v); return "ok"; }); z = dep::outcome([&] { c.Write(v); return "ok"; }); break;
      case 1: x = dep::outcome([&] { a.write(v, true); return "ok"; }); y = dep::outcome([&] { b.Write(v, true); return "ok"; }); z = dep::outcome([&] { c.Write(v, true); return "ok"; }); break;
      case 2: x = dep::outcome([&] { a.skip(); return "ok"; }); y = dep::outcome([&] { b.Skip(); return "ok"; }); z = dep::outcome([&] { c.Skip(); return "ok"; }); break;
      case 3: x = dep::outcome([&] { return dep::repr(a.read()); }); y = dep::outcome([&] { return dep::repr(b.Read()); }); z = dep::outcome([&] { return dep::repr(c.Read()); }); break;
      case 4: a.clear(); b.Clear(); c.Clear(); break;
      case 5: case 6: case 7: case 8: a.setCapacity(size_t(op - 5)); b.SetCapacity(size_t(op - 5)); c.SetCapacity(size_t(op - 5)); break;
      case 9: x = dep::outcome([&] { a.at(1) = v; return "ok"; }); y = dep::outcome([&] { b.At(1) = v; return "ok"; }); z = dep::outcome([&] { c.At(1) = v; return "ok"; }); break;
      default: a2 = a; b2 = b; c2 = c; T d(c); dep::outcome([&] { d.Write(99, true); return ""; }); { R e(b); dep::outcome([&] { e.Write(99, true); return ""; }); } std::swap(a, a2); std::swap(b, b2); std::swap(c, c2); break;
    }
    MC_CHECK(x == y && x == z, "ring-result", "operation %d: current name %s, compatibility name %s, compatibility class %s", op, x.c_str(), y.c_str(), z.c_str());
    string sa = ringNow(a), sb = ring(b), sc = ring(c), sd = ringNow(b); const R& cb = b; const T& cc = c;
    MC_CHECK(sa == sb && sa == sc && sb == sd, "ring-state", "after operation %d: current %s, compatibility names %s, compatibility class %s", op, sa.c_str(), sb.c_str(), sc.c_str());
    for (size_t p = 0; p < 4; ++p)
    {
      string p1 = dep::outcome([&] { return dep::repr(static_cast<const R&>(a).at(p)); }), p2 = dep::outcome([&] { return dep::repr(cb.At(p)); }), p3 = dep::outcome([&] { return dep::repr(cc.At(p)); });
      MC_CHECK(p1 == p2 && p1 == p3, "ring-at", "position %zu: current %s, compatibility %s and %s", p, p1.c_str(), p2.c_str(), p3.c_str());
    }
    mc::transition(); mc::state(mc::hashStr(sa));
  }
  MC_CHECK(R().capacity() == T().Capacity(), "ring-state", "default capacities differ"); MC_CHECK(ring(c2) == ringNow(a2), "ring-state", "the copy differs");
}
// ---------------------------------------------------------------- texts, bits, enumerations
static void texts()
{
  static const char AB[] = { 'a', 'B', ' ', '\t', '\xe4', '0' }; string s; int n = mc::choose(mc::thorough() ? 6 : 5, "length"); for (int i = 0; i < n; ++i) s += mc::pick(AB, "char");
  SAME("text", icl_core::toLower(s), icl_core::Tolower(s)); SAME("text", icl_core::toUpper(s), icl_core::Toupper(s)); SAME("text", icl_core::trim(s), icl_core::Trim(s));
  for (size_t w = 0; w < 7; ++w) for (char p : { ' ', '0', '#' })
  {
    SAME("pad", icl_core::padLeft<icl_core::String>(s, w, p), icl_core::PadLeft<icl_core::String>(s, w, p)); SAME("pad", icl_core::padRight<icl_core::String>(s, w, p), icl_core::PadRight<icl_core::String>(s, w, p));
  }
  SAME("pad", icl_core::padLeft<icl_core::String>(s, 5), icl_core::PadLeft<icl_core::String>(s, 5)); SAME("pad", icl_core::padRight<icl_core::String>(s, 5), icl_core::PadRight<icl_core::String>(s, 5));
}
template <typename T> static void number(T v)
{
  SAME("stringify", icl_core::stringify<T>(v), icl_core::Stringify<T>(v));
  for (size_t w = 0; w < 9; w += 2) { SAME("pad", icl_core::padLeft<T>(v, w, '_'), icl_core::PadLeft<T>(v, w, '_')); SAME("pad", icl_core::padRight<T>(v, w, '_'), icl_core::PadRight<T>(v, w, '_')); }
  SAME("pad", icl_core::padLeft<T>(v, 8), icl_core::PadLeft<T>(v, 8)); SAME("pad", icl_core::padRight<T>(v, 8), icl_core::PadRight<T>(v, 8));
}
static void numbers()
{
  static const long double V[] = { 0, 1, -1, 7, 100, 65536, -2147483648.0L, 4294967295.0L, 0.1L, 1.0L / 3, 1e-7L, 1e30L, -2.5L };
  long double v = mc::pick(V, "value");
  switch (mc::choose(7, "type")) { case 0: number<bool>(v != 0); break; case 1: number<double>(double(v)); break; case 2: number<float>(float(v)); break; case 3: number<long double>(v); break;
    case 4: number<int64_t>(v < 1e18L ? int64_t(v) : 5); break; case 5: number<uint32_t>(v >= 0 && v < 5e9L ? uint32_t(v) : 9); break; default: number<string>(std::to_string(double(v))); }
}
template <typename T> static void bits(T v, int b)
{
  T x = v, y = v; icl_core::setBits<T>(b, x); icl_core::SetBits<T>(b, y); MC_CHECK(x == y, "bits", "SetBits(%d) on %lld: %lld, expected %lld", b, (long long)v, (long long)y, (long long)x);
  x = y = v; icl_core::clearBits<T>(b, x); icl_core::ClearBits<T>(b, y); MC_CHECK(x == y, "bits", "ClearBits(%d) on %lld: %lld, expected %lld", b, (long long)v, (long long)y, (long long)x);
  MC_CHECK(icl_core::isBitSet<T>(b, v) == icl_core::IsBitSet<T>(b, v), "bits", "IsBitSet(%d) on %lld differs", b, (long long)v); mc::transition(3);
}
static void bitfields()
{
  static const int64_t V[] = { 0, 1, 2, 3, 127, 128, 255, 256, 65535, 2147483647, 2147483648ll, 4294967295ll, -1, -2147483648ll, 0x7fffffffffffffffll }; int64_t v = mc::pick(V, "value");
  static const int B[] = { 0, 1, 2, 3, 4, 128, 255, 32768, 1 << 30, -1, INT32_MIN }; int b = mc::pick(B, "bits");
  bits<int8_t>(int8_t(v), b); bits<uint8_t>(uint8_t(v), b); bits<int16_t>(int16_t(v), b); bits<uint16_t>(uint16_t(v), b); bits<int32_t>(int32_t(v), b); bits<uint32_t>(uint32_t(v), b); bits<int64_t>(v, b); bits<uint64_t>(uint64_t(v), b);
}
static void enums()
{
  static const char* const NUL[] = { "one", "two", "", "end", "three", "zzz", nullptr }; static const char* const PROBE[] = { "one", "two", "three", "end", "", "On", "onee", "zzz" };
  const char* p = mc::pick(PROBE, "text"); static const char* const ENDS[] = { nullptr, "end", "zzz", "" }; const char* e = mc::pick(ENDS, "end marker");
  for (int32_t init : { -7, 0, 3 })
  {
    int32_t x = init, y = init; SAME("enum", icl_core::string2Enum(p, x, NUL, e), icl_core::String2Enum(p, y, NUL, e)); MC_CHECK(x == y, "enum", "String2Enum(%s) stores %d, string2Enum %d", p, y, x);
    x = y = init; SAME("enum", icl_core::string2Enum(p, x, NUL), icl_core::String2Enum(p, y, NUL)); MC_CHECK(x == y, "enum", "String2Enum(%s) stores %d, string2Enum %d", p, y, x);
  }
}
// ---------------------------------------------------------------- sequence numbers
static void sequenceLibrary()
{
  string path = string(getenv("VERIF_OUTDIR") ? getenv("VERIF_OUTDIR") : ".") + "/seq.so"; void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
  MC_CHECK(h, "sequence-names", "a program that uses SequenceNumber::MaxValue() and MinValue() cannot be linked: %s", dlerror());
  typedef void (*F)(long long*, long long*); F f = F(dlsym(h, "names")); MC_CHECK(f, "sequence-names", "library without its function");
  long long o[8], c[8]; f(o, c); for (int i = 0; i < 8; ++i) MC_CHECK(o[i] == c[i], "sequence-names", "%s of type %d is %lld, expected %lld", i % 2 ? "MinValue" : "MaxValue", i / 2, o[i], c[i]);
  mc::transition(8);
}
template <typename N, typename O> static void sequence(int from, int to)
{
  int a = from + mc::choose(to - from + 1, "a"), b = from + mc::choose(to - from + 1, "b"); N x(a), y(b); O u(a), v(b);
  SAME("sequence", x < y, u < v); SAME("sequence", x <= y, u <= v); SAME("sequence", x > y, u > v); SAME("sequence", x >= y, u >= v); SAME("sequence", x == y, u == v); SAME("sequence", x != y, u != v);
  for (int i = 0; i < to - from + 3; ++i) { N n = x++; int m = u++; SAME("sequence", int(n), m); SAME("sequence", int(x), int(u)); SAME("sequence", int(++y), int(++v)); }
  O w(u); SAME("sequence", int(u), int(w)); w = v; SAME("sequence", int(v), int(w)); SAME("sequence", int(N()), int(O()));
}
static void sequences() { if (mc::flip("kind")) sequence<icl_core::SequenceNumber<int, 5>, icl_core::tSequenceNumber<int, 5> >(0, 5); else sequence<icl_core::SequenceNumber<int, 9, 2, 4>, icl_core::tSequenceNumber<int, 9, 2, 4> >(2, 9); }
// ---------------------------------------------------------------- key/value directory
static void directories()
{
  icl_core::KeyValueDirectory<string> a, b; static const char* const KEYS[] = { "a", "ab", "b", "" }; int n = mc::choose(4, "inserts");
  for (int i = 0; i < n; ++i) { string k = mc::pick(KEYS, "key"), v(1, char('m' + i)); SAME("directory", a.insert(k, v), b.Insert(k, v)); }
  for (auto k : { "a", "ab", "b", "", "c" })
  {
    SAME("directory", a.hasKey(k), b.HasKey(k)); string x = "?", y = "?"; SAME("directory", a.get(k, x), b.Get(k, y)); SAME("directory", x, y);
  }
  static const char* const RE[] = { ".*", "a(.*)", "(a)?(b)", "x" }; const char* re = mc::pick(RE, "query"); icl_core::KeyValueDirectoryIterator<string> i = a.find(re), j = b.Find(re);
  for (int round = 0; round < 2; ++round)
  {
    int cut = round ? 9 : mc::choose(3, "reset after");
    for (int c = 0; ; ++c)
    {
      bool x = i.next(), y = j.Next(); MC_CHECK(x == y, "directory-iterator", "Next is %d, next is %d", int(y), int(x)); if (!x) break;
      SAME("directory-iterator", i.key(), j.Key()); SAME("directory-iterator", i.value(), j.Value()); for (size_t g = 0; g < 4; ++g) SAME("directory-iterator", i.matchGroup(g), j.MatchGroup(g));
      if (c == cut) break;
    }
    i.reset(); j.Reset();
  }
}
// ---------------------------------------------------------------- scheme parser
static string scheme(const icl_core::Scheme& s)
{
  string r = std::to_string(int(s.scheme_type)) + "|" + s.scheme_name + "|" + s.specifier + "|" + s.anchor; for (auto& q : s.queries) r += "|" + q.name + "=" + q.value; return r;
}
static string info(const char* base, const BOOST_SPIRIT_NAMESPACE::parse_info<>& i) { (void)base; return std::to_string(i.full) + std::to_string(i.hit) + "," + std::to_string(i.length); }
static void schemes()
{
  static const char* const A[] = { "", "file://", "http://", "camera://", "gps://", "other://", "x:/" }; static const char* const B[] = { "", "p", "/p/q", "d.org/p" }; static const char* const C[] = { "", "#a", "#" };
  static const char* const D[] = { "", "?k=v", "?k=v&l=w", "?k", "&" }; string s = string(mc::pick(A, "scheme")) + mc::pick(B, "path") + mc::pick(C, "anchor") + mc::pick(D, "query");
  icl_core::SchemeParser p, q; bool r1 = p.parseScheme(s), r2 = q.ParseScheme(s); MC_CHECK(r1 == r2, "scheme", "ParseScheme(%s) is %d", s.c_str(), int(r2));
  if (r1)
  {
    SAME("scheme", scheme(p.getSchemeResult()), scheme(q.GetSchemeResult())); SAME("scheme", info(s.c_str(), p.getParseInfo()), info(s.c_str(), q.GetParseInfo()));
  }
  icl_core::Scheme u, v; u.scheme_type = v.scheme_type = icl_core::OtherScheme; BOOST_SPIRIT_NAMESPACE::parse_info<> k, l; r1 = icl_core::SchemeParser::parseScheme(s, u, k); r2 = icl_core::SchemeParser::ParseScheme(s, v, l);
  MC_CHECK(r1 == r2, "scheme", "static ParseScheme(%s) is %d", s.c_str(), int(r2)); SAME("scheme", scheme(u), scheme(v)); SAME("scheme", info(s.c_str(), k), info(s.c_str(), l));
}
// ---------------------------------------------------------------- operating system names
static string slurp(const string& f) { std::ifstream i(f.c_str(), std::ios::binary); if (!i) return "<none>"; return string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
static string noTime(string s) { if (s.size() > 10 && s[0] == '\x1f') for (int i = 4; i < 8; ++i) s[size_t(i)] = 0; return s; }
static void zip()
{
  string d = mc::scratch(); static const char* const EXT[] = { nullptr, "", ".x" }; const char* e = mc::pick(EXT, "extension"); int size = mc::pick(std::vector<int>{ -1, 0, 1, 9000 }, "size");
  string a = d + "/a", b = d + "/b"; mkdir(a.c_str(), 0700); mkdir(b.c_str(), 0700); string fa = a + "/f", fb = b + "/f";
  if (size >= 0) for (auto& f : { fa, fb }) { std::ofstream o(f.c_str(), std::ios::binary); for (int i = 0; i < size; ++i) o.put(char(i * 7 % 251)); }
  if (e) SAME("zip", icl_core::os::zipFile(fa.c_str(), e), icl_core::os::ZipFile(fb.c_str(), e)); else SAME("zip", icl_core::os::zipFile(fa.c_str()), icl_core::os::ZipFile(fb.c_str()));
  for (auto n : { "/f", "/f.gz", "/f.x.gz", "/f.x", "/f.gz.x" }) { string x = noTime(slurp(a + n)), y = noTime(slurp(b + n)); MC_CHECK(x == y, "zip", "%s has %zu bytes, expected %zu (or another content)", n + 1, y.size(), x.size()); }
  for (auto& f : { a, b }) for (auto n : { "/f", "/f.gz", "/f.x.gz" }) unlink((f + n).c_str()); rmdir(a.c_str()); rmdir(b.c_str());
}
static void* other(void* r) { *static_cast<bool*>(r) = icl_core::os::ThreadSelf() == icl_core::os::threadSelf(); return nullptr; }
static void system_()
{
  MC_CHECK(icl_core::os::ThreadSelf() == icl_core::os::threadSelf(), "thread-self", "ThreadSelf is another thread"); bool r = false; pthread_t t; pthread_create(&t, nullptr, other, &r); pthread_join(t, nullptr);
  MC_CHECK(r, "thread-self", "ThreadSelf is another thread in a second thread");
  int out = dup(1), null = open("/dev/null", O_WRONLY); fflush(stdout); dup2(null, 1);          // these print a notice
  SAME("lxrt", icl_core::os::isLxrtAvailable(), icl_core::os::IsLxrtAvailable()); SAME("lxrt", icl_core::os::isThisLxrtTask(), icl_core::os::IsThisLxrtTask()); SAME("lxrt", icl_core::os::isThisHRT(), icl_core::os::IsThisHRT());
  SAME("lxrt", icl_core::os::ensureNoHRT(), icl_core::os::EnsureNoHRT()); SAME("lxrt", icl_core::os::makeThisAnLxrtTask(), icl_core::os::MakeThisAnLxrtTask());
  SAME_DO("lxrt", icl_core::os::makeHRT(), icl_core::os::MakeHRT()); SAME_DO("lxrt", icl_core::os::makeThisALinuxTask(), icl_core::os::MakeThisALinuxTask());
  SAME_DO("lxrt", icl_core::os::lxrtStartup(), icl_core::os::LxrtStartup()); SAME_DO("lxrt", icl_core::os::lxrtShutdown(), icl_core::os::LxrtShutdown());
  fflush(stdout); dup2(out, 1); close(out); close(null);
}
// ---------------------------------------------------------------- container classes
static void stacks()
{
  icl_core::SearchableStack<int> a; icl_core::tSearchableStack<int> b; int depth = 6;
  for (int i = 0; i < depth; ++i)
  {
    int op = mc::choose(5, "op"); if (op == 3 && a.empty()) mc::prune();
    switch (op) { case 0: a.push(1); b.push(1); break; case 1: a.push(2); b.push(2); break; case 2: a.clear(); b.clear(); break; case 3: a.pop(); b.pop(); break; default: if (!a.empty()) { a.top() += 2; b.top() += 2; } }
    const auto& ca = a; const auto& cb = b; SAME("stack", a.empty(), b.empty()); SAME("stack", a.size(), b.size()); if (!a.empty()) { SAME("stack", a.top(), b.top()); SAME("stack", ca.top(), cb.top()); }
    SAME("stack", std::vector<int>(ca.begin(), ca.end()), std::vector<int>(cb.begin(), cb.end())); SAME("stack", std::vector<int>(ca.rbegin(), ca.rend()), std::vector<int>(cb.rbegin(), cb.rend()));
    for (int v = 0; v < 5; ++v) SAME("stack", ca.find(v) - ca.begin(), cb.find(v) - cb.begin());
  }
}
template <typename T> static void vec()
{
  int n = mc::choose(4, "elements"); T v = T(mc::choose(3, "value"));
  SAME("vector", std::vector<T>(size_t(n), v), std::vector<T>(icl_core::tVector<T>(size_t(n), v))); SAME("vector", std::vector<T>(size_t(n)), std::vector<T>(icl_core::tVector<T>(size_t(n))));
  SAME("vector", std::vector<T>(), std::vector<T>(icl_core::tVector<T>()));
  std::vector<T> src; for (int i = 0; i < n; ++i) src.push_back(T(i + v)); icl_core::tVector<T> x(src.begin(), src.end()); SAME("vector", src, std::vector<T>(x)); icl_core::tVector<T> y(x); x.push_back(v); SAME("vector", src, std::vector<T>(y));
  src.push_back(v); SAME("vector", src, std::vector<T>(x)); y = x; SAME("vector", src, std::vector<T>(y));
}
static void containers()
{
  switch (mc::choose(3, "type")) { case 0: vec<int>(); break; case 1: vec<double>(); break; default: vec<uint8_t>(); }
  icl_core::tList<int> l; l.push_back(1); l.push_front(2); SAME("list", (std::list<int>{ 2, 1 }), std::list<int>(l)); icl_core::tMap<int, string> m; m[3] = "x"; SAME("map", string("x"), m[3]); SAME("map", size_t(1), m.size());
  icl_core::tQueue<int> q; q.push(1); q.push(2); SAME("queue", 1, q.front()); q.pop(); SAME("queue", 2, q.front()); SAME("queue", size_t(1), q.size());
}
static void types()
{
  using namespace icl_core;
  SAME_TYPE(bool, tBool); SAME_TYPE(float, tFloat); SAME_TYPE(double, tDouble); SAME_TYPE(uint8_t, tUnsigned8); SAME_TYPE(int8_t, tSigned8); SAME_TYPE(uint16_t, tUnsigned16); SAME_TYPE(int16_t, tSigned16);
  SAME_TYPE(uint32_t, tUnsigned32); SAME_TYPE(int32_t, tSigned32); SAME_TYPE(uint64_t, tUnsigned64); SAME_TYPE(int64_t, tSigned64); SAME_TYPE(size_t, tSize); SAME_TYPE(ptrdiff_t, tSSize);
  SAME_TYPE(std::string, tString); SAME_TYPE(TimeSpan, tTimeSpan); SAME_TYPE(TimeStamp, tTimeStamp); SAME_TYPE(Noncopyable, tNoncopyable); SAME_TYPE(Query, tQuery); SAME_TYPE(QueryList, tQueryList);
  SAME_TYPE(SchemeType, tSchemeType); SAME_TYPE(Scheme, tScheme); SAME_TYPE(AbstractFunctionObject, tAbstractFunctionObject); SAME_TYPE(SchemeFunction, tSchemeFunction); SAME_TYPE(SpecifierFunction, tSpecifierFunction);
  SAME_TYPE(AnchorFunction, tAnchorFunction); SAME_TYPE(QueryKeyFunction, tQueryKeyFunction); SAME_TYPE(QueryValueFunction, tQueryValueFunction); SAME_TYPE(SchemeParser, tSchemeParser);
  SAME_TYPE(ThreadId, tThreadId); SAME_TYPE(ThreadPriority, tThreadPriority);
  SAME_TYPE(tVector<uint8_t>, tUnsigned8Vector); SAME_TYPE(tVector<uint16_t>, tUnsigned16Vector); SAME_TYPE(tVector<uint32_t>, tUnsigned32Vector); SAME_TYPE(tVector<uint64_t>, tUnsigned64Vector);
  SAME_TYPE(tVector<int8_t>, tSigned8Vector); SAME_TYPE(tVector<int16_t>, tSigned16Vector); SAME_TYPE(tVector<int32_t>, tSigned32Vector); SAME_TYPE(tVector<int64_t>, tSigned64Vector); SAME_TYPE(tVector<float>, tFloatVector); SAME_TYPE(tVector<double>, tDoubleVector);
  SAME_TYPE(tList<uint8_t>, tUnsigned8List); SAME_TYPE(tList<uint16_t>, tUnsigned16List); SAME_TYPE(tList<uint32_t>, tUnsigned32List); SAME_TYPE(tList<uint64_t>, tUnsigned64List);
  SAME_TYPE(tList<int8_t>, tSigned8List); SAME_TYPE(tList<int16_t>, tSigned16List); SAME_TYPE(tList<int32_t>, tSigned32List); SAME_TYPE(tList<int64_t>, tSigned64List); SAME_TYPE(tList<float>, tFloatList); SAME_TYPE(tList<double>, tDoubleList);
  SAME_TYPE(tSearchableStack<uint8_t>, tUnsigned8SearchableStack); SAME_TYPE(tSearchableStack<uint16_t>, tUnsigned16SearchableStack); SAME_TYPE(tSearchableStack<uint32_t>, tUnsigned32SearchableStack); SAME_TYPE(tSearchableStack<uint64_t>, tUnsigned64SearchableStack);
  SAME_TYPE(tSearchableStack<int8_t>, tSigned8SearchableStack); SAME_TYPE(tSearchableStack<int16_t>, tSigned16SearchableStack); SAME_TYPE(tSearchableStack<int32_t>, tSigned32SearchableStack); SAME_TYPE(tSearchableStack<int64_t>, tSigned64SearchableStack);
  SAME_TYPE(tSearchableStack<float>, tFloatSearchableStack); SAME_TYPE(tSearchableStack<double>, tDoubleSearchableStack);
}
int main(int argc, char** argv)
{
  return mc::run(argc, argv, {
    mc::Scenario("time spans", spans), mc::Scenario("time stamps", stamps), mc::Scenario("clocks", clocks), mc::Scenario("ring buffers", rings), mc::Scenario("texts", texts), mc::Scenario("numbers as text", numbers),
    mc::Scenario("bit fields", bitfields), mc::Scenario("enumerations", enums), mc::Scenario("sequence numbers", sequences), mc::Scenario("linked against", sequenceLibrary), mc::Scenario("key/value directories", directories),
    mc::Scenario("scheme parsers", schemes), mc::Scenario("compressed files", zip), mc::Scenario("system", system_), mc::Scenario("stacks", stacks), mc::Scenario("containers", containers), mc::Scenario("type names", types),
  });
}
