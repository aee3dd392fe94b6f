// TimeSpan / TimeStamp arithmetic against exact integer nanoseconds.
#include "mc.h"
#include <icl_core/TimeSpan.h>
#include <icl_core/TimeStamp.h>
#include <cmath>
#include <sstream>
#include <cstdlib>
using icl_core::TimeSpan; using icl_core::TimeStamp;
typedef __int128 I;
static const I G = 1000000000;

static const int64_t SECS[] = { 0, 1, -1, 2, -2, 59, 60, -60, 3599, 3600, 3661, 86399, 86400, -86400, 90061, 1000000, -1000000,
                                2147483647ll, 2147483648ll, -2147483649ll, 4294967296ll, 100000000000ll };
static const int32_t NS[] = { 0, 1, -1, 999, 1000, -1000, 999999, 1000000, -1000000, 1000001, 499999999, 500000000, -500000000, 999000000, 999999999, -999999999,
                              1000000000, -1000000000, 1000000001, 1999999999, 2000000000, -2000000000, 2147483647, -2147483647 };
static const int64_t SMALL_S[] = { 0, 1, -1, 3, -3, 61, 3600 };
static const int32_t SMALL_N[] = { 0, 1, -1, 500000000, -500000000, 999999999, -999999999 };
static const int64_t STAMP_S[] = { 0, 1, 2, 86399, 86400, 4294967296ll };
static const uint32_t STAMP_N[] = { 0, 1, 500000000, 999999999, 1000000000, 2000000001 };

static std::string str(I v)
{
  bool neg = v < 0; if (neg) v = -v; std::string s; do { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return (neg ? "-" : "") + s;
}
static I val(const TimeSpan& t) { return I(t.tsSec()) * G + t.tsNSec(); }
static I val(const TimeStamp& t) { return I(int64_t(t.tsSec())) * G + int32_t(t.tsNSec()); }

static void checkNormal(int64_t s, int32_t n, I want, const char* what)
{
  MC_CHECK(I(s) * G + n == want, "value", "%s: %lld s %d ns, expected %s ns in total", what, (long long)s, n, str(want).c_str());
  MC_CHECK(n > -1000000000 && n < 1000000000, "normal-range", "%s: nanosecond part %d", what, n);
  MC_CHECK(!(s > 0 && n < 0) && !(s < 0 && n > 0), "normal-sign", "%s: %lld s %d ns have opposite signs", what, (long long)s, n);
}
static void checkSpan(const TimeSpan& t, I want, const char* what)
{
  checkNormal(t.tsSec(), t.tsNSec(), want, what);
  bool fits = want < I(9000000000000000000ll) && want > -I(9000000000000000000ll);
  if (fits) MC_CHECK(t.toNSec() == int64_t(want), "toNSec", "%s: toNSec=%lld, expected %s", what, (long long)t.toNSec(), str(want).c_str());
  if (want / 1000 < I(9000000000000000000ll) && want / 1000 > -I(9000000000000000000ll))
  {
    MC_CHECK(t.toUSec() == int64_t(want / 1000), "toUSec", "%s: toUSec=%lld for %s ns", what, (long long)t.toUSec(), str(want).c_str());
    MC_CHECK(t.toMSec() == int64_t(want / 1000000), "toMSec", "%s: toMSec=%lld for %s ns", what, (long long)t.toMSec(), str(want).c_str());
  }
  MC_CHECK(t.tsUSec() == int32_t(want % G / 1000), "tsUSec", "%s: tsUSec=%d", what, t.tsUSec());
  MC_CHECK(t.milliSeconds() == int32_t(want % G / 1000000), "milliSeconds", "%s: milliSeconds=%d", what, t.milliSeconds());
  MC_CHECK(t.microSeconds() == int32_t(want % G / 1000), "microSeconds", "%s: microSeconds=%d", what, t.microSeconds());
  MC_CHECK(t.nanoSeconds() == int32_t(want % 1000), "nanoSeconds", "%s: nanoSeconds=%d", what, t.nanoSeconds());
  int64_t s = int64_t(want / G);
  MC_CHECK(t.days() * 86400 + t.hours() * 3600 + t.minutes() * 60 + t.seconds() == s, "dhms", "%s: %lld d %lld h %lld m %lld s is not %lld s", what,
           (long long)t.days(), (long long)t.hours(), (long long)t.minutes(), (long long)t.seconds(), (long long)s);
  MC_CHECK(llabs(t.hours()) < 24 && llabs(t.minutes()) < 60 && llabs(t.seconds()) < 60, "dhms-range", "%s: part out of range", what);
  struct timespec ts = t.timespec();
  MC_CHECK(ts.tv_sec == t.tsSec() && ts.tv_nsec == t.tsNSec(), "timespec", "%s: timespec", what);
  MC_CHECK(TimeSpan(ts) == t, "timespec", "%s: timespec does not convert back", what);
}
template <class T> static void checkOrder(const T& a, const T& b, I va, I vb)
{
  MC_CHECK((a < b) == (va < vb), "order", "< on %s and %s ns", str(va).c_str(), str(vb).c_str());
  MC_CHECK((a > b) == (va > vb), "order", "> on %s and %s ns", str(va).c_str(), str(vb).c_str());
  MC_CHECK((a <= b) == (va <= vb), "order", "<= on %s and %s ns", str(va).c_str(), str(vb).c_str());
  MC_CHECK((a >= b) == (va >= vb), "order", ">= on %s and %s ns", str(va).c_str(), str(vb).c_str());
  MC_CHECK((a == b) == (va == vb), "order", "== on %s and %s ns", str(va).c_str(), str(vb).c_str());
  MC_CHECK((a != b) == (va != vb), "order", "!= on %s and %s ns", str(va).c_str(), str(vb).c_str());
}
static TimeSpan makeSpan(I& v, bool small)
{
  int64_t s = small ? mc::pick(SMALL_S, "s") : mc::pick(SECS, "s");
  int32_t n = small ? mc::pick(SMALL_N, "n") : mc::pick(NS, "n");
  v = I(s) * G + n;
  mc::trace("span %lld s %d ns", (long long)s, n);
  return TimeSpan(s, n);
}
static TimeStamp makeStamp(I& v)
{
  int64_t s = mc::pick(STAMP_S, "s"); uint32_t n = mc::pick(STAMP_N, "n");
  v = I(s) * G + n;
  mc::trace("stamp %lld s %u ns", (long long)s, n);
  return TimeStamp(uint64_t(s), n);
}

static void build()
{
  mc::transition();
  switch (mc::choose(6, "how"))
  {
  case 0: { I v; TimeSpan t = makeSpan(v, false); checkSpan(t, v, "TimeSpan(s,n)"); break; }
  case 1: { int64_t s = mc::pick(SECS); checkSpan(TimeSpan::createFromSec(s), I(s) * G, "createFromSec"); TimeSpan t(7, 8); t.fromSec(s); checkSpan(t, I(s) * G, "fromSec"); break; }
  case 2: { int64_t s = mc::pick(SECS) * (mc::flip() ? 1 : 1001); for (int d = -1; d <= 1; ++d) { checkSpan(TimeSpan::createFromMSec(s + d), I(s + d) * 1000000, "createFromMSec"); TimeSpan t(7, 8); t.fromMSec(s + d); checkSpan(t, I(s + d) * 1000000, "fromMSec"); } break; }
  case 3: { int64_t s = mc::pick(SECS) * (mc::flip() ? 1 : 1000001); for (int d = -1; d <= 1; ++d) { checkSpan(TimeSpan::createFromUSec(s + d), I(s + d) * 1000, "createFromUSec"); TimeSpan t(7, 8); t.fromUSec(s + d); checkSpan(t, I(s + d) * 1000, "fromUSec"); } break; }
  case 4: { struct timespec ts; ts.tv_sec = mc::pick(SECS); ts.tv_nsec = mc::pick(NS); checkSpan(TimeSpan(ts), I(ts.tv_sec) * G + ts.tv_nsec, "TimeSpan(timespec)"); break; }
  case 5: { I v; TimeStamp t = makeStamp(v); checkNormal(int64_t(t.tsSec()), int32_t(t.tsNSec()), v, "TimeStamp(s,n)"); TimeStamp u(t.timespec()); MC_CHECK(u == t, "timespec", "stamp from timespec"); 
            MC_CHECK(t.tsUSec() == uint32_t(v % G / 1000), "tsUSec", "stamp tsUSec"); break; }
  }
}

static void pairs()
{
  I a, b; TimeSpan x = makeSpan(a, false), y = makeSpan(b, false);
  mc::transition(8);
  checkOrder(x, y, a, b);
  checkSpan(x + y, a + b, "a+b");
  checkSpan(x - y, a - b, "a-b");
  { TimeSpan t = x; t += y; checkSpan(t, a + b, "a+=b"); t -= y; checkSpan(t, a, "(a+b)-b"); MC_CHECK(t == x, "restore", "adding and subtracting does not restore"); }
  { TimeSpan t = x; t -= y; checkSpan(t, a - b, "a-=b"); t += y; MC_CHECK(t == x, "restore", "subtracting and adding does not restore"); }
  checkSpan(icl_core::abs(x), a < 0 ? -a : a, "abs");
  mc::state(mc::mix(uint64_t(a), uint64_t(b)));
}

static void stamps()
{
  I a, b, c; TimeStamp x = makeStamp(a), y = makeStamp(b); TimeSpan s = makeSpan(c, true);
  mc::transition(6);
  checkOrder(x, y, a, b);
  checkSpan(x - y, a - b, "stamp-stamp");
  if (a + c >= 0) { TimeStamp t = x + s; checkNormal(int64_t(t.tsSec()), int32_t(t.tsNSec()), a + c, "stamp+span"); MC_CHECK(t - s == x, "restore", "stamp+span-span"); MC_CHECK(t == s + x, "value", "span+stamp");
                    TimeStamp u(x); u += s; MC_CHECK(u == t, "value", "stamp+=span"); u -= s; MC_CHECK(u == x, "restore", "stamp-=span"); MC_CHECK(t - x == s, "value", "(x+s)-x is not s"); }
  if (a - c >= 0) { TimeStamp t = x - s; checkNormal(int64_t(t.tsSec()), int32_t(t.tsNSec()), a - c, "stamp-span"); MC_CHECK(t + s == x, "restore", "stamp-span+span"); }
  mc::state(mc::mix(mc::mix(uint64_t(a), uint64_t(b)), uint64_t(c)));
}

// chains: the accumulated value stays exact and normalised
static void chains(int depth)
{
  I v; TimeSpan t = makeSpan(v, true);
  TimeStamp st(5, 0); I sv = 5 * G;
  for (int d = 0; d < depth; ++d)
  {
    I b; TimeSpan y = makeSpan(b, true);
    mc::transition();
    switch (mc::choose(5, "op"))
    {
    case 0: t += y; v += b; break;
    case 1: t -= y; v -= b; break;
    case 2: t = icl_core::abs(t) - y; v = (v < 0 ? -v : v) - b; break;
    case 3: if (sv + b < 0) mc::prune(); st += y; sv += b; break;
    case 4: if (sv - v < 0) mc::prune(); st = st - t; sv -= v; break;
    }
    checkSpan(t, v, "chain");
    checkNormal(int64_t(st.tsSec()), int32_t(st.tsNSec()), sv, "stamp chain");
    mc::dedup(mc::mix(uint64_t(v), uint64_t(sv)), depth - d);
  }
}

// scaling: within one nanosecond per operation (plus double rounding) of the exact quotient / product
static void scaling()
{
  static const double F[] = { 1, 2, 3, 4, 0.5, 0.25, 10, 1000, 1e6, 1e9, 0.001, 1.5, -1, -2, 7 };
  static const int64_t S[] = { 0, 1, -1, 2, 3, -3, 59, 3600, 86400, 100000 };
  int64_t s = mc::pick(S); int32_t n = mc::pick(SMALL_N); double f = mc::pick(F);
  TimeSpan t(s, n); I v = I(s) * G + n;
  mc::trace("span %lld s %d ns, factor %g", (long long)s, n, f);
  mc::transition(2);
  long double q = (long double)v / f, p = (long double)v * f;
  TimeSpan tq = t / f, tp = t * f;
  long double eq = fabsl((long double)val(tq) - q), ep = fabsl((long double)val(tp) - p);
  long double tolq = 0.501L + fabsl(q) * 1e-15L, tolp = 0.501L + fabsl(p) * 1e-15L;
  MC_CHECK(eq <= tolq, "divide", "(%lld s %d ns) / %g = %s ns, exact quotient %.3Lf", (long long)s, n, f, str(val(tq)).c_str(), q);
  if (fabsl(p) < 9e18L) MC_CHECK(ep <= tolp, "multiply", "(%lld s %d ns) * %g = %s ns, exact product %.3Lf", (long long)s, n, f, str(val(tp)).c_str(), p);
  checkNormal(tq.tsSec(), tq.tsNSec(), val(tq), "quotient"); checkNormal(tp.tsSec(), tp.tsNSec(), val(tp), "product");
  mc::state(mc::mix(uint64_t(v), uint64_t(int64_t(f * 4096))));
}

// printed form of a span: the terms add up to the value, in the units printed
static bool readTerms(std::string t, bool signAll, I& out)
{
  I limit = 0, last = 0; bool first = true;   // every term at most one of the unit before it, the units in descending order
  out = 0; bool neg = false; size_t i = 0; bool any = false;
  while (i < t.size())
  {
    bool tneg = false;
    if (t[i] == '-') { tneg = true; ++i; if (!any) neg = true; }
    size_t b = i; while (i < t.size() && isdigit(t[i])) ++i;
    if (i == b || i - b > 18) return false;
    I n = 0; for (size_t k = b; k < i; ++k) n = n * 10 + (t[k] - '0');
    size_t u = i; while (i < t.size() && isalpha(t[i])) ++i;
    std::string unit = t.substr(u, i - u);
    I f = unit == "h" ? 3600 * G : unit == "m" ? 60 * G : unit == "s" ? G : unit == "ms" ? I(1000000) : unit == "us" ? I(1000) : unit == "ns" ? I(1) : I(0);
    if (f == 0) return false;
    if (!first && f >= last) return false;
    limit = f == 3600 * G ? 0 : f == 60 * G ? 60 : f == G ? 60 : f == 1000000 ? 999 : f == 1000 ? 999999 : 999999999;
    if (limit && n > limit) return false;
    first = false; last = f;
    bool minus = signAll ? neg : (f >= G ? neg : tneg);
    if (signAll && any && tneg) return false;
    out += (minus ? -n : n) * f;
    any = true;
  }
  return any;
}
static void printing()
{
  I v; TimeSpan t = makeSpan(v, false);
  std::ostringstream o; o << t; I a, b;
  bool ra = readTerms(o.str(), true, a), rb = readTerms(o.str(), false, b);
  mc::transition();
  MC_CHECK((ra && a == v) || (rb && b == v), "print", "span of %s ns prints as %s", str(v).c_str(), mc::quote(o.str()).c_str());
  mc::state(uint64_t(v));
}

// futureMSec under a controlled clock
static timespec g_now; static bool g_fake = false;
extern "C" int gettimeofday(struct timeval* tv, void*)
{
  if (g_fake) { tv->tv_sec = g_now.tv_sec; tv->tv_usec = g_now.tv_nsec / 1000; return 0; }
  timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
static void constants()
{
  checkSpan(TimeSpan(), 0, "TimeSpan()"); checkSpan(TimeSpan::cZERO, 0, "TimeSpan::cZERO"); checkNormal(TimeStamp::cZERO.tsSec(), TimeStamp::cZERO.tsNSec(), 0, "TimeStamp::cZERO");
  TimeStamp none; checkNormal(int64_t(none.tsSec()), int32_t(none.tsNSec()), 0, "TimeStamp()");
  static const time_t T[] = { 0, 1, 86399, 1000000000, 4294967296ll }; time_t t = mc::pick(T, "time"); TimeStamp s(t); checkNormal(int64_t(s.tsSec()), int32_t(s.tsNSec()), I(t) * G, "TimeStamp(time_t)");
  MC_CHECK(TimeStamp::maxTime() > s, "order", "the greatest stamp is not the greatest");
  checkNormal(int64_t(TimeStamp::maxTime().tsSec()), int32_t(TimeStamp::maxTime().tsNSec()), val(TimeStamp::maxTime()), "maxTime()");
  mc::transition(6);
}
static void future()
{
  static const int64_t NOWS[] = { 0, 1, 1000000000, 4294967295ll };
  static const int32_t NOWN[] = { 0, 1000, 500000000, 999999000 };
  static const uint64_t MS[] = { 0, 1, 499, 500, 501, 999, 1000, 1001, 86400000, 4294967296ull };
  g_now.tv_sec = mc::pick(NOWS); g_now.tv_nsec = mc::pick(NOWN); uint64_t ms = mc::pick(MS);
  g_fake = true;
  TimeStamp n = TimeStamp::now(), f = TimeStamp::futureMSec(ms), g; g.fromNow();
  g_fake = false;
  I now = I(g_now.tv_sec) * G + g_now.tv_nsec;
  mc::transition(2);
  MC_CHECK(val(n) == now && g == n, "now", "now() is %s, clock %s", str(val(n)).c_str(), str(now).c_str());
  checkNormal(int64_t(f.tsSec()), int32_t(f.tsNSec()), now + I(ms) * 1000000, "futureMSec");
  mc::state(mc::mix(uint64_t(now), ms));
}

int main(int argc, char** argv)
{
  bool th = false; for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--thorough") th = true;
  return mc::run(argc, argv, {
    mc::Scenario("construct", build), mc::Scenario("pairs", pairs), mc::Scenario("stamps", stamps),
    mc::Scenario("chains", [=] { chains(th ? 4 : 3); }), mc::Scenario("scaling", scaling), mc::Scenario("printing", printing), mc::Scenario("future", future), mc::Scenario("constants", constants) });
}
