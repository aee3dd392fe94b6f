// TimeStamp <-> calendar text, against an independent civil calendar.
#include "mc.h"
#include <icl_core/TimeStamp.h>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <cstdlib>
#include <cstring>
using icl_core::TimeStamp;

// days since 1970-01-01 of a civil date (Hinnant), independent of the code under test
static int64_t daysOf(int64_t y, int m, int d)
{
  y -= m <= 2;
  const int64_t era = y / 400; const int64_t yoe = y - era * 400;
  const int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  const int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static const int DIM[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
static int dim(int y, int m) { return m == 2 && leap(y) ? 29 : DIM[m - 1]; }
static const int SOD[] = { 0, 1, 59, 60, 3599, 3600, 35999, 43200, 86399 };
static const uint32_t NS[] = { 0, 1, 999, 1000, 500000000, 99999999, 123456789, 999999999 };

static std::string text(int y, int mo, int d, int sod, uint32_t ns)
{
  return mc::format("%04d%02d%02dT%02d%02d%02d,%09u", y, mo, d, sod / 3600, sod / 60 % 60, sod % 60, ns);
}
static void checkOne(int y, int mo, int d, int sod, uint32_t ns, bool local)
{
  int64_t secs = daysOf(y, mo, d) * 86400 + sod;
  TimeStamp t(uint64_t(secs), ns);
  std::string want = text(y, mo, d, sod, ns);
  std::string got = t.formatIso8601BasicUTC();
  MC_CHECK(got == want, "format", "%lld s %u ns formats as %s, expected %s", (long long)secs, ns, got.c_str(), want.c_str());
  TimeStamp back = TimeStamp::fromIso8601BasicUTC(want);
  MC_CHECK(back == t && int64_t(back.tsSec()) == secs && back.tsNSec() == ns, "parse", "%s parses as %lld s %u ns, expected %lld s %u ns", want.c_str(),
           (long long)back.tsSec(), back.tsNSec(), (long long)secs, ns);
  std::string ext = mc::format("%04d-%02d-%02d %02d:%02d:%02d", y, mo, d, sod / 3600, sod / 60 % 60, sod % 60);
  MC_CHECK(t.formatIso8601UTC() == ext, "format-ext", "%lld s formats as %s, expected %s", (long long)secs, t.formatIso8601UTC().c_str(), ext.c_str());
  if (local)
  { // the local time zone is set to UTC+05:30 for this harness
    int64_t ls = secs + 19800; int64_t day = ls / 86400; int64_t ldays = daysOf(y, mo, d); int ly = y, lm = mo, ld = d;
    if (day != ldays) { if (++ld > dim(y, mo)) { ld = 1; if (++lm > 12) { lm = 1; ++ly; } } }
    if (ly <= 9999)
    {
      std::string lw = text(ly, lm, ld, int(ls % 86400), ns);
      MC_CHECK(t.formatIso8601Basic() == lw, "format-local", "%lld s local formats as %s, expected %s", (long long)secs, t.formatIso8601Basic().c_str(), lw.c_str());
      std::string le = mc::format("%04d-%02d-%02d %02d:%02d:%02d", ly, lm, ld, int(ls % 86400) / 3600, int(ls % 86400) / 60 % 60, int(ls % 60));
      MC_CHECK(t.formatIso8601() == le, "format-local-ext", "%lld s local formats as %s, expected %s", (long long)secs, t.formatIso8601().c_str(), le.c_str());
    }
  }
}
static void everyDay()
{
  int y0 = 1970, y1 = mc::thorough() ? 9999 : 2800;
  int y = mc::thorough() ? y0 + mc::choose(y1 - y0 + 1, "year") : y0 + mc::choose(y1 - y0 + 2, "year");
  if (y == 2801) y = 9999;
  mc::trace("year %d", y);
  static const int SOME_SOD[] = { 0, 43200, 86399 };
  for (int mo = 1; mo <= 12; ++mo)
    for (int d = 1; d <= dim(y, mo); ++d)
    {
      bool edge = d == 1 || d >= dim(y, mo) - 1;
      if (edge)
        for (int s : SOD) for (uint32_t n : NS) { checkOne(y, mo, d, s, n, n < 2); mc::transition(); }
      else
        for (int s : SOME_SOD) { checkOne(y, mo, d, s, 999999999, false); mc::transition(); }
      mc::state(mc::mix(y, mo * 32 + d));
    }
}
// every second of a few days and every hour of a few years: time of day fields
static void everySecond()
{
  static const int D[][3] = { {1970,1,1}, {1999,12,31}, {2000,2,29}, {2100,2,28}, {2038,1,19}, {2400,2,29}, {9999,12,31} };
  int di = mc::choose(7, "day"), h = mc::choose(24, "hour");
  for (int s = 0; s < 3600; ++s) { checkOne(D[di][0], D[di][1], D[di][2], h * 3600 + s, NS[s % 8], false); mc::transition(); }
  mc::state(di * 24 + h);
}
// every truncation of the text: missing parts are the start of the period
static void truncated()
{
  static const int D[][3] = { {1970,1,1}, {1971,7,31}, {2000,2,29}, {2016,12,31}, {2037,11,30}, {2100,3,1} };
  int di = mc::choose(6, "day"); int sod = mc::pick(SOD, "sod"); uint32_t ns = mc::pick(NS, "ns");
  std::string full = text(D[di][0], D[di][1], D[di][2], sod, ns);
  static const int CUT[] = { 0, 4, 6, 8, 9, 11, 13, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25 };
  int cut = mc::pick(CUT, "cut");
  std::string s = full.substr(0, cut);
  int y = cut >= 4 ? D[di][0] : 1970, mo = cut >= 6 ? D[di][1] : 1, d = cut >= 8 ? D[di][2] : 1;
  int hh = cut >= 11 ? sod / 3600 : 0, mm = cut >= 13 ? sod / 60 % 60 : 0, ss = cut >= 15 ? sod % 60 : 0;
  uint32_t n = 0;
  if (cut > 16) { std::string f = (s.substr(16) + "000000000").substr(0, 9); n = uint32_t(strtoul(f.c_str(), nullptr, 10)); }
  int64_t secs = daysOf(y, mo, d) * 86400 + hh * 3600 + mm * 60 + ss;
  TimeStamp t = TimeStamp::fromIso8601BasicUTC(s);
  MC_CHECK(int64_t(t.tsSec()) == secs && t.tsNSec() == n, "truncated", "\"%s\" parses as %lld s %u ns, expected %lld s %u ns", s.c_str(), (long long)t.tsSec(), t.tsNSec(), (long long)secs, n);
  mc::state(mc::hashStr(s)); mc::transition();
}
static void calendarObject()
{
  using namespace boost::posix_time; using namespace boost::gregorian;
  static const int Y[] = { 1970, 1971, 1972, 2000, 2001, 2016, 2037, 2038, 2039, 2100, 2106, 2250 };
  int y = mc::pick(Y, "year"), mo = 1 + mc::choose(12, "month"); int dk = mc::choose(4, "day");
  int d = dk == 0 ? 1 : dk == 1 ? 2 : dk == 2 ? dim(y, mo) - 1 : dim(y, mo);
  int sod = mc::pick(SOD, "sod"); uint32_t us = NS[mc::choose(8, "ns")] / 1000;
  ptime p(date(y, mo, d), hours(sod / 3600) + minutes(sod / 60 % 60) + seconds(sod % 60) + microseconds(us));
  int64_t secs = daysOf(y, mo, d) * 86400 + sod;
  TimeStamp t(p);
  MC_CHECK(int64_t(t.tsSec()) == secs && t.tsNSec() == us * 1000, "ptime", "%04d-%02d-%02d +%d s %u us converts to %lld s %u ns, expected %lld s %u ns", y, mo, d, sod, us,
           (long long)t.tsSec(), t.tsNSec(), (long long)secs, us * 1000);
  TimeStamp a(5, 7); a = p;
  MC_CHECK(a == t, "ptime-assign", "assigned date-time %lld s %u ns differs from the constructed one", (long long)a.tsSec(), a.tsNSec());
  MC_CHECK(int64_t(a.tsSec()) == secs && a.tsNSec() == us * 1000, "ptime-assign", "assigned date-time is wrong");
  mc::state(mc::mix(uint64_t(secs), us)); mc::transition();
}
// stamps reached by arithmetic format like the instant they denote
static void afterArithmetic()
{
  static const int64_t DS[] = { 0, 1, -1, 86400, -86400 }; static const int32_t DN[] = { 0, 1, -1, 999999999, -999999999 };
  static const int D[][3] = { {1970,1,3}, {2000,3,1}, {2016,1,1} };
  int di = mc::choose(3, "day"); int sod = mc::pick(SOD, "sod"); uint32_t ns = mc::pick(NS, "ns");
  int64_t ds = mc::pick(DS, "ds"); int32_t dn = mc::pick(DN, "dn");
  int64_t total = daysOf(D[di][0], D[di][1], D[di][2]) * 86400 + sod;
  TimeStamp t = TimeStamp(uint64_t(total), ns) + icl_core::TimeSpan(ds, dn);
  __int128 v = (__int128)(total + ds) * 1000000000 + ns + dn;
  std::string s = t.formatIso8601BasicUTC();
  TimeStamp b = TimeStamp::fromIso8601BasicUTC(s);
  __int128 w = (__int128)(int64_t)b.tsSec() * 1000000000 + b.tsNSec();
  MC_CHECK(v == w, "arith-format", "%lld s %u ns plus (%lld s, %d ns) prints as %s", (long long)total, ns, (long long)ds, dn, s.c_str());
  MC_CHECK(b == t, "arith-format", "round trip of %s differs", s.c_str());
  mc::state(mc::hashStr(s)); mc::transition();
}
// stamps after the year 9999, to the greatest one: the right text or none, and no failure
static void beyond()
{
  static const int64_t S[] = { 253402280999ll, 253402281000ll, 253402300799ll, 253402300800ll, 253402387200ll, 3093527980799ll, 3093527980800ll, 67768036191676799ll, 67768036191676800ll, 67768036191676800ll - 19801, 9223372036854775807ll };
  int64_t secs = mc::pick(S, "seconds"); uint32_t ns = mc::pick(NS, "ns"); bool local = mc::flip("local"), basic = mc::flip("basic");
  TimeStamp t = mc::flip("greatest") ? TimeStamp::maxTime() : TimeStamp(uint64_t(secs), ns); secs = int64_t(t.tsSec()); ns = t.tsNSec();
  for (int fill = 0; fill < 2; ++fill)
  {
    { volatile char stack[4096]; for (auto& c : stack) c = fill ? 'x' : 0; }
    std::string got = local ? (basic ? t.formatIso8601Basic() : t.formatIso8601()) : (basic ? t.formatIso8601BasicUTC() : t.formatIso8601UTC());
    std::string date = got;
    if (basic) { std::string end = mc::format(",%09u", ns); MC_CHECK(got.size() >= 10 && got.substr(got.size() - 10) == end, "beyond", "%lld s %u ns formats as %s", (long long)secs, ns, mc::quote(got).c_str()); date.resize(got.size() - 10); }
    if (!date.empty())
    {
      __int128 ls = __int128(secs) + (local ? 19800 : 0); int64_t days = int64_t(ls / 86400), sod = int64_t(ls % 86400);
      int64_t z = days + 719468, era = z / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
      int d = int(doy - (153 * mp + 2) / 5 + 1), m = int(mp < 10 ? mp + 3 : mp - 9); long long y = (long long)(yoe + era * 400 + (m <= 2));
      std::string want = basic ? mc::format("%lld%02d%02dT%02d%02d%02d", y, m, d, int(sod / 3600), int(sod / 60 % 60), int(sod % 60)) : mc::format("%lld-%02d-%02d %02d:%02d:%02d", y, m, d, int(sod / 3600), int(sod / 60 % 60), int(sod % 60));
      MC_CHECK(date == want, "beyond", "%lld s %u ns formats as %s, expected %s", (long long)secs, ns, mc::quote(got).c_str(), want.c_str());
    }
    // any format, any buffer: it ends within the buffer
    for (size_t n = 0; n < 40; ++n)
    {
      char b[64]; memset(b, 'x', sizeof b); if (local) t.strfLocaltime(b, n, "%Y-%m-%d %H:%M:%S"); else t.strfTime(b, n, "%Y-%m-%d %H:%M:%S");
      if (n) MC_CHECK(memchr(b, 0, n) != nullptr, "beyond", "formatting %lld s into %zu bytes leaves the text without end", (long long)secs, n);
      for (size_t i = n; i < sizeof b; ++i) MC_CHECK(b[i] == 'x', "beyond", "formatting %lld s into %zu bytes writes byte %zu", (long long)secs, n, i);
    }
    mc::transition(41);
  }
}
int main(int argc, char** argv)
{
  setenv("TZ", "IST-05:30", 1); tzset();
  return mc::run(argc, argv, { {"every-day", everyDay}, {"every-second", everySecond}, {"truncated", truncated},
                               {"calendar-object", calendarObject}, {"after-arithmetic", afterArithmetic}, {"beyond", beyond} });
}
