// T07: icl_core::thread::PeriodicThread over a virtual clock and a modelled timer descriptor.
#include "threads.h"
#include "icl_core_thread/PeriodicThread.h"
#include "icl_core_thread/Logging.h"
#include "icl_core/TimeSpan.h"

using icl_core::TimeSpan;

namespace {

const int64_t MS = 1000000;
TimeSpan span(int64_t ns) { return TimeSpan(ns / 1000000000, int32_t(ns % 1000000000)); }
int64_t nsOf(const TimeSpan& t) { return int64_t(t.tsSec()) * 1000000000 + t.tsNSec(); }

struct Step { int64_t work; int64_t period; };   // period: 0 none, otherwise set to this (negative values encode refused ones)
const int64_t ZERO = -1, NEGATIVE = -2;

struct Ghost
{
  int64_t period, from, last;        // boundaries lie at from + k * period; the last release consumed those up to last
  int64_t earliest_from; int releases;
  bool changing;                     // a controller is inside setPeriod
  bool changed;                      // the controller changed the period (not tracked exactly)
  int runs, active;
} gh;

struct Body : public icl_core::thread::PeriodicThread
{
  std::vector<Step> steps;
  bool loop;
  Body(int64_t period) : icl_core::thread::PeriodicThread("periodic", span(period)), loop(false) { }

  void cycle(int64_t work, bool exact)
  {
    if (work) sched::elapse(work);
    int64_t c; { sched::Quiet q; c = sched::now(); }
    waitPeriod();
    int64_t r; { sched::Quiet q; r = sched::now(); }
    sched::Quiet q;
    ++gh.releases;
    sched::trace("released at %+lldus", (long long)(r - gh.from) / 1000);
    if (gh.changed || gh.changing) return;
    // never more releases than boundaries
    MC_CHECK((r - gh.earliest_from) / gh.period >= gh.releases, "early", "released %d times after %lld ns with a period of %lld ns", gh.releases,
             (long long)(r - gh.earliest_from), (long long)gh.period);
    if (exact && sched::preemptions() == 0)
    {
      int64_t k = (c - gh.from) / gh.period;
      int64_t want = k > (gh.last - gh.from) / gh.period ? c : gh.from + (k + 1) * gh.period;
      MC_CHECK(r == want, r < want ? "early" : "late", "waiting from %lld ns on was released at %lld ns instead of %lld ns after the first period began (period %lld ns)",
               (long long)(c - gh.from), (long long)(r - gh.from), (long long)(want - gh.from), (long long)gh.period);
      gh.last = r;
    }
  }
  void change(int64_t p, bool own)
  {
    int64_t v = p == ZERO ? 0 : p == NEGATIVE ? -5 * MS : p;
    int64_t before = nsOf(period());
    bool ok = setPeriod(p == NEGATIVE ? TimeSpan(0, -5000000) : span(v));
    sched::Quiet q;
    if (v > 0)
    {
      MC_CHECK(ok, "set", "setPeriod to %lld ns returned false", (long long)v);
      MC_CHECK(nsOf(period()) == v, "set", "period() is %lld ns after setting %lld ns", (long long)nsOf(period()), (long long)v);
      if (own) { gh.period = v; gh.from = gh.last = gh.earliest_from = sched::now(); gh.releases = 0; }
    }
    else
    {
      MC_CHECK(!ok, "set", "setPeriod to %lld ns returned true", (long long)v);
      MC_CHECK(nsOf(period()) == before, "set", "period() is %lld ns after a refused change, %lld ns before", (long long)nsOf(period()), (long long)before);
    }
  }
  virtual void run()
  {
    {
      sched::Quiet q;
      ++gh.runs;
      gh.from = gh.last = sched::now(); gh.releases = 0;
    }
    if (!loop)
    {
      for (size_t i = 0; i < steps.size(); ++i)
      {
        if (steps[i].period) change(steps[i].period, true);
        cycle(steps[i].work, true);
      }
    }
    else
    {
      size_t i = 0;
      while (execute()) { cycle(steps[i % steps.size()].work, false); ++i; }
    }
  }
};

void start(Body* b)
{
  { sched::Quiet q; gh.earliest_from = sched::now(); }
  MC_CHECK(b->start(), "start", "start returned false");
}

void end(Body* b, size_t blocks)
{
  MC_CHECK(sched::openFds() <= 1, "descriptors", "%d timer descriptors are open", sched::openFds());
  delete b;
  MC_CHECK(sched::alive() == 0 && sched::unjoined() == 0, "left-running", "a thread still runs after its object was destroyed");
  MC_CHECK(sched::openFds() == 0, "descriptors", "%d timer descriptors are still open", sched::openFds());
  MC_CHECK(sched::liveBlocks() == blocks, "leak", "%zu blocks of memory were not released", sched::liveBlocks() - blocks);
}

const int64_t PERIODS[] = {10 * MS, 1500 * MS, 2000 * MS, 1};
int g_cycles;

// every sequence of body durations and period changes, exact to the nanosecond
void cycles()
{
  gh = Ghost();
  size_t blocks = sched::liveBlocks();
  int64_t p = PERIODS[mc::choose(3, "period")];
  Body* b = new Body(p);
  gh.period = p;
  int64_t cur = p;
  if (mc::choose(2, "changed before the start"))
  {
    p = cur = p + 3 * MS;
    b->change(p, false); gh.period = p;
  }
  uint64_t h = uint64_t(p);
  for (int i = 0; i < g_cycles; ++i)
  {
    Step s; s.period = 0;
    switch (mc::choose(5, "change"))
    {
      case 1: s.period = p / 2; break;
      case 2: s.period = p + p / 4; break;
      case 3: s.period = ZERO; break;
      case 4: s.period = NEGATIVE; break;
    }
    if (s.period > 0) cur = s.period;
    switch (mc::choose(6, "work"))
    {
      case 0: s.work = 0; break;
      case 1: s.work = cur / 3; break;
      case 2: s.work = cur - 1; break;
      case 3: s.work = cur; break;
      case 4: s.work = cur + 1; break;
      case 5: s.work = cur * 5 / 2; break;
    }
    h = mc::mix(h, uint64_t(s.work)); h = mc::mix(h, uint64_t(s.period));
    sched::Quiet q;
    b->steps.push_back(s);
  }
  start(b);
  b->join();
  { sched::Quiet q; std::vector<Step>().swap(b->steps); }
  MC_CHECK(gh.runs == 1, "runs", "%d runs", gh.runs);
  end(b, blocks);
  mc::state(h);
}

// started, perhaps changed, stopped and restarted by a controller while it runs
void lifecycle()
{
  gh = Ghost();
  size_t blocks = sched::liveBlocks();
  int64_t p = 10 * MS;
  Body* b = new Body(p);
  gh.period = p;
  b->loop = true;
  { Step s; s.period = 0; s.work = mc::choose(3, "work") * 7 * MS; sched::Quiet q; b->steps.push_back(s); }
  int rounds = mc::choose(2, "rounds") + 1, op = mc::choose(3, "change while running"), ends = mc::choose(2, "end");
  for (int i = 0; i < rounds; ++i)
  {
    gh.changed = false;
    start(b);
    if (op)
    {
      usleep(12000);
      { sched::Quiet q; gh.changing = true; }
      b->change(op == 1 ? 4 * MS : ZERO, false);
      { sched::Quiet q; gh.changing = false; gh.changed = true; }
    }
    int64_t t0 = sched::now(); int before; { sched::Quiet q; before = gh.releases; }
    usleep(22000);
    // the changed period is in effect: boundaries every 4ms in a window of 22ms, as far as the work allows
    if (op == 1 && sched::preemptions() == 0)
    {
      sched::Quiet q;
      int64_t one = b->steps[0].work < 4 * MS ? 4 * MS : b->steps[0].work;
      int most = int((sched::now() - t0) / one), got = gh.releases - before;
      MC_CHECK(got >= most - 2 && got <= most + 1, "not-in-effect", "%d releases in %lld ms with a period of 4 ms", got, (long long)(sched::now() - t0) / MS);
    }
    b->stop();
    if (ends == 0) b->join(); else MC_CHECK(b->wait(), "wait", "wait returned false");
    MC_CHECK(sched::openFds() <= 1, "descriptors", "%d timer descriptors are open", sched::openFds());
    if (op == 1) { b->change(p, false); }
  }
  { sched::Quiet q; std::vector<Step>().swap(b->steps); }
  end(b, blocks);
  mc::state(mc::mix(uint64_t(gh.releases), uint64_t(rounds * 16 + op * 4 + ends)));
  mc::outcome(mc::format("%d releases", gh.releases));
}

} // namespace

int main(int argc, char** argv)
{
  bool deep = false; for (int i = 1; i < argc; ++i) deep |= std::string(argv[i]) == "--thorough";
  icl_core::thread::IclCoreThread::instance().setActive(false);
  g_cycles = 3;
  sched::Options o, oi; oi.interrupts = true;
  std::vector<int> b2 = deep ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1, 2};
  return mc::run(argc, argv, {
    sched::scenario("cycles", cycles, deep ? std::vector<int>{0, 1} : std::vector<int>{0}, oi),
    sched::scenario("lifecycle", lifecycle, b2, oi),
  });
}
