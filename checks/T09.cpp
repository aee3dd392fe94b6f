// T09: the emulated periodic timer (systems without timer descriptors) over an interposed clock.
#include "mc.h"
#include <cerrno>
#include <cstdint>
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include "icl_core/TimeSpan.h"
#include "icl_core/TimeStamp.h"
#include "icl_core_thread/PeriodicThreadImplEmulate.h"
using icl_core::TimeSpan;

static const int64_t MS = 1000000, S = 1000000000;
// ---------------------------------------------------------------- the clock: wall time may jump, running time may not
static bool g_fake; static int64_t g_wall, g_run; static int g_sleeps, g_oddities, g_max_oddities; static bool g_jumped, g_late;
static int64_t g_slept;
static void pass(int64_t ns) { g_wall += ns; g_run += ns; }
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
  timespec t; if (g_fake) { t.tv_sec = g_wall / S; t.tv_nsec = g_wall % S; } else syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
extern "C" int clock_gettime(clockid_t c, timespec* t) noexcept
{
  if (!g_fake) return int(syscall(SYS_clock_gettime, c, t));
  int64_t v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? g_wall : g_run + 77 * S;
  t->tv_sec = v / S; t->tv_nsec = v % S; return 0;
}
static int sleepFor(int64_t want, timespec* rem)
{
  if (++g_sleeps > 40) mc::fail("endless", "one wait sleeps more than 40 times");
  int odd = g_oddities < g_max_oddities ? mc::choose(5, "sleep") : 0;
  if (odd) ++g_oddities;
  switch (odd)
  {
    case 0: pass(want); g_slept += want; return 0;
    case 1: case 2:                                     // a signal handler ran, at once or after half of the time
    {
      int64_t d = odd == 1 ? 0 : want / 2; pass(d); g_slept += d; mc::trace("a signal interrupts the sleep of %lld us after %lld us", (long long)want / 1000, (long long)d / 1000);
      if (rem) { rem->tv_sec = (want - d) / S; rem->tv_nsec = (want - d) % S; } errno = EINTR; return -1;
    }
    case 3: pass(want + 3 * MS); g_slept += want + 3 * MS; g_late = true; mc::trace("the sleep takes 3 ms more"); return 0;
    default:                                            // the clock is set back meanwhile
    {
      static const int64_t J[] = { 4 * MS, 100 * S, 400000 * S }; int64_t j = mc::pick(J, "set back by");
      pass(want); g_slept += want; g_wall -= j; g_jumped = true; mc::trace("the clock is set back by %lld ms during the sleep", (long long)j / MS); return 0;
    }
  }
}
extern "C" int nanosleep(const timespec* t, timespec* r)
{
  if (!g_fake) return int(syscall(SYS_nanosleep, t, r));
  if (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec >= S) { errno = EINVAL; if (++g_sleeps > 40) mc::fail("endless", "invalid sleeps for ever"); return -1; }
  return sleepFor(int64_t(t->tv_sec) * S + t->tv_nsec, r);
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* r)
{
  if (!g_fake) return -int(syscall(SYS_clock_nanosleep, c, flags, t, r));
  int64_t v = int64_t(t->tv_sec) * S + t->tv_nsec;
  if (flags & TIMER_ABSTIME) v = std::max<int64_t>(0, v - (c == CLOCK_REALTIME ? g_wall : g_run + 77 * S));
  return sleepFor(v, r) ? EINTR : 0;
}

static const int64_t PERIODS[] = { 10 * MS, 1500 * MS, 1 * MS, 2 * S };
static TimeSpan span(int64_t ns) { return TimeSpan(ns / S, int32_t(ns % S)); }
static int64_t nsOf(const TimeSpan& t) { return int64_t(t.tsSec()) * S + t.tsNSec(); }
struct Guard { Guard() { g_fake = true; g_wall = 1000000000 * S; g_run = 0; g_oddities = 0; } ~Guard() { g_fake = false; } };

static void waits(int n, int oddities)
{
  Guard guard; g_max_oddities = oddities;
  int64_t period = mc::pick(PERIODS, "period");
  icl_core::thread::PeriodicThreadImplEmulate e(span(period));
  MC_CHECK(nsOf(e.period()) == period, "period", "period() is %lld ns instead of %lld ns", (long long)nsOf(e.period()), (long long)period);
  e.makePeriodic();
  bool first = true; int64_t last = 0, last_run = 0; uint64_t h = uint64_t(period);
  for (int i = 0; i < n; ++i)
  {
    // the body: shorter than, as long as, or longer than a period; it may change the period, and the clock may be set
    static const int BODY[] = { 0, 3, 10, 13, 35 }; int b = mc::choose(5, "body"); int64_t body = period / 10 * BODY[b];
    pass(body); mc::trace("the body takes %lld us", (long long)body / 1000);
    int what = mc::choose(4, "event");
    bool back = false, forth = false;
    if (what == 1) { period = PERIODS[mc::choose(4, "new period")]; MC_CHECK(e.setPeriod(span(period)) && nsOf(e.period()) == period, "period", "the period was not changed to %lld ns", (long long)period); mc::trace("period %lld us", (long long)period / 1000); }
    if (what == 2) { static const int64_t J[] = { 2 * MS, 7 * S, 400000 * S }; int64_t j = mc::pick(J, "set back by"); g_wall -= j; back = true; mc::trace("the clock is set back by %lld ms", (long long)j / MS); }
    if (what == 3) { g_wall += 5 * S; forth = true; mc::trace("the clock is set forward by 5 s"); }
    h = mc::mix(h, uint64_t(b * 4 + what));
    int64_t from = g_wall, from_run = g_run; g_sleeps = 0; g_slept = 0; g_jumped = g_late = false;
    e.waitPeriod();
    int64_t r = g_wall, waited = g_run - from_run;
    mc::transition();
    // never too early by the running time unless the clock was set
    if (!first && !back && !forth && !g_jumped) MC_CHECK(g_run - last_run >= period, "early", "released %lld us after the last release, the period is %lld us", (long long)(g_run - last_run) / 1000, (long long)period / 1000);
    // exact as long as nothing unusual happens
    if (!back && !g_jumped && !g_late)
    {
      int64_t want = first ? from : std::max(from, last + period);
      MC_CHECK(r == want, r < want ? "early" : "late", "released at %lld us instead of %lld us (wall time since the call; period %lld us)", (long long)(r - from) / 1000, (long long)(want - from) / 1000, (long long)period / 1000);
    }
    // a clock that is set back does not make anybody wait for it
    int64_t limit = period * (g_jumped ? 1 + g_oddities : 1) + (g_late ? 3 * MS * g_oddities : 0);
    MC_CHECK(waited <= limit, "late", "waited %lld ms for the end of a period of %lld ms%s", (long long)waited / MS, (long long)period / MS, g_jumped || back ? " after the clock was set back" : "");
    if (back && !g_jumped && !g_late && from < last) MC_CHECK(waited == period, "backwards", "waited %lld us instead of one period of %lld us when the clock had been set back", (long long)waited / 1000, (long long)period / 1000);
    first = false; last = r; last_run = g_run;
    mc::state(mc::mix(h, uint64_t(waited)));
  }
}
int main(int argc, char** argv)
{
  bool th = false; for (int i = 1; i < argc; ++i) th |= std::string(argv[i]) == "--thorough";
  return mc::run(argc, argv, { mc::Scenario("histories", [th] { waits(th ? 5 : 4, 0); }).timeout(10), mc::Scenario("disturbed", [th] { waits(th ? 3 : 2, 2); }).timeout(10) });
}
