// T01: mutual exclusion, recursion, try and timed locking of icl_core::thread::Mutex in every schedule.
#include "threads.h"
#include <stdexcept>
#include "icl_core_thread/Mutex.h"
#include "icl_core_thread/ScopedMutexLock.h"
#include "icl_core/TimeStamp.h"
#include "icl_core/TimeSpan.h"

using icl_core::TimeSpan;
using icl_core::TimeStamp;
using icl_core::thread::Mutex;
using icl_core::thread::ScopedMutexLock;

namespace {

const int64_t MS = 1000000;
enum Op { LOCK, TRY, SPAN, STAMP, ZERO, PAST, SCOPED, NEST, OLD_LOCK, OLD_TRY, OLD_SPAN, OLD_STAMP, SCOPED_THROW, NOPS };
const char* NAME[] = {"lock", "tryLock", "lock(10ms)", "lock(now+10ms)", "lock(0)", "lock(past)", "scoped", "nested", "Lock", "TryLock",
                      "Lock(10ms)", "Lock(now+10ms)", "scoped+throw"};

struct Shared { long a, b; };
Shared* g;
th::LockGhost ghost;

// the protected data: always a == b outside a critical section
void section(int64_t hold)
{
  long v = g->a;
  g->a = v + 1;
  if (hold) sched::elapse(0), usleep(useconds_t(hold / 1000));
  MC_CHECK(g->b == v, "data", "the protected data changed while the lock was held");
  g->b = v + 1;
}

void oneOp(Mutex& m, int op, int64_t hold, int& entered)
{
  int t = sched::self();
  int64_t t0 = sched::now();
  sched::trace("%s%s", NAME[op], hold ? ", holds it 20ms" : "");
  if (op == SCOPED || op == SCOPED_THROW)
  {
    ghost.call(t, true);
    try
    {
      ScopedMutexLock l(m);
      MC_CHECK(l.isLocked() && bool(l), "scoped", "a scoped lock does not report that it is locked");
      ghost.acquired(t, true, NAME[op]);
      section(hold); ++entered;
      ghost.releasing(t, true);
      if (op == SCOPED_THROW) throw std::runtime_error("x");
    }
    catch (const std::runtime_error&) { }
    ghost.released(t, true);
    return;
  }
  bool ok = false, timed = true; int64_t deadline = 0;
  ghost.call(t, true);
  switch (op)
  {
    case LOCK: case NEST: ok = m.lock(); timed = false; break;
    case OLD_LOCK: ok = m.Lock(); timed = false; break;
    case TRY: ok = m.tryLock(); deadline = INT64_MIN; break;
    case OLD_TRY: ok = m.TryLock(); deadline = INT64_MIN; break;
    case SPAN: ok = m.lock(TimeSpan(0, int32_t(10 * MS))); deadline = t0 + 10 * MS; break;
    case OLD_SPAN: ok = m.Lock(TimeSpan(0, int32_t(10 * MS))); deadline = t0 + 10 * MS; break;
    case ZERO: ok = m.lock(TimeSpan(0, 0)); deadline = t0; break;
    case STAMP: case OLD_STAMP:
    {
      int64_t at = sched::now() + 10 * MS;
      TimeStamp s(at / 1000000000, uint32_t(at % 1000000000));
      ok = op == STAMP ? m.lock(s) : m.Lock(s); deadline = at; break;
    }
    case PAST: ok = m.lock(TimeStamp(10, 0)); deadline = INT64_MIN; break;
  }
  int64_t t1 = sched::now();
  sched::trace("%s: %s", NAME[op], ok ? "true" : "false");
  if (!ok)
  {
    MC_CHECK(timed, "lock-failed", "%s returned false", NAME[op]);
    MC_CHECK(ghost.otherMayHold(t, true), "refused-free", "%s failed although no other thread had the mutex", NAME[op]);
    MC_CHECK(t1 >= deadline, "gave-up-early", "%s gave up %lld ns before its deadline", NAME[op], (long long)(deadline - t1));
    if (sched::preemptions() == 0 && deadline > t0)
      MC_CHECK(t1 <= deadline + 2 * MS, "late", "%s returned %lld ns after its deadline", NAME[op], (long long)(t1 - deadline));
    if (sched::preemptions() == 0 && deadline <= t0)
      MC_CHECK(t1 <= t0 + 2 * MS, "blocked", "%s blocked for %lld ns", NAME[op], (long long)(t1 - t0));
    ghost.refused(t, true);
    return;
  }
  ghost.acquired(t, true, NAME[op]);
  if (op == NEST)
  {
    // recursive: every further acquisition by the holder succeeds at once, the lock stays taken until the last release
    int how = t % 3;
    bool again = how == 0 ? m.lock() : how == 1 ? m.tryLock() : m.lock(TimeSpan(0, int32_t(10 * MS)));
    MC_CHECK(again, "recursion", "the holder could not lock the mutex again");
    section(0);
    m.unlock();
    sched::point("still held once");
    section(hold); ++entered;
  }
  else section(hold);
  ++entered;
  ghost.releasing(t, true);
  if (op == OLD_LOCK || op == OLD_TRY) m.Unlock(); else m.unlock();
  ghost.released(t, true);
}

void runThreads(int n, const std::vector<std::vector<int>>& ops, const std::vector<std::vector<int>>& holds)
{
  ghost.clear();
  g = new Shared(); sched::watch(g, sizeof *g, "the protected data");
  size_t before = sched::liveBlocks();
  int entered[4] = {0, 0, 0, 0};
  {
    Mutex m;
    {
      th::Threads t;
      for (int i = 0; i < n; ++i)
        t.start([&, i] { for (size_t k = 0; k < ops[i].size(); ++k) oneOp(m, ops[i][k], holds[i][k] ? 20 * MS : 0, entered[i]); });
      t.join();
    }
    // afterwards the mutex is free again, at once
    int64_t t0 = sched::now();
    MC_CHECK(m.tryLock(), "left-locked", "the mutex is still taken after every thread released it");
    m.unlock();
    MC_CHECK(m.lock(TimeSpan(1, 0)) && sched::now() == t0, "left-locked", "the mutex could not be locked at once after every thread released it");
    m.unlock();
  }
  long sum = 0; for (int i = 0; i < n; ++i) sum += entered[i];
  MC_CHECK(g->a == sum && g->b == sum, "lost", "%ld critical sections, the data says %ld", sum, g->a);
  mc::outcome(mc::format("%ld in", sum));
  uint64_t h = uint64_t(n);
  for (int i = 0; i < n; ++i) for (size_t k = 0; k < ops[i].size(); ++k) h = mc::mix(h, uint64_t(ops[i][k] * 2 + holds[i][k]));
  for (int i = 0; i < n; ++i) h = mc::mix(h, uint64_t(entered[i]));
  mc::state(mc::mix(h, uint64_t(sched::now())));
  (void)before;
}

void pairs()
{
  std::vector<std::vector<int>> ops(2), holds(2);
  for (int i = 0; i < 2; ++i)
  {
    ops[i].push_back(mc::choose(NOPS, "operation"));
    holds[i].push_back(mc::choose(2, "hold"));
  }
  runThreads(2, ops, holds);
}

void sequences()
{
  static const int S[] = {LOCK, TRY, SPAN, STAMP, NEST};
  std::vector<std::vector<int>> ops(2), holds(2);
  for (int i = 0; i < 2; ++i)
    for (int k = 0; k < 2; ++k) { ops[i].push_back(mc::pick(S, "operation")); holds[i].push_back(i == 1 && k == 0); }
  runThreads(2, ops, holds);
}

void triples()
{
  static const int S[] = {LOCK, TRY, SPAN, SCOPED, NEST};
  std::vector<std::vector<int>> ops(3), holds(3);
  for (int i = 0; i < 3; ++i) { ops[i].push_back(mc::pick(S, "operation")); holds[i].push_back(i == 0); }
  runThreads(3, ops, holds);
}

// a waiter against a holder that keeps the mutex beyond the deadline, and one that releases it in time
void deadlines()
{
  static const int64_t HOLD[] = {0, 5 * MS, 9999999, 10 * MS, 10000001, 20 * MS, 1500 * MS};
  static const int64_t WAIT[] = {0, 1, 10 * MS, 999999999, 1000000000, 1000000001, 2500 * MS};
  int64_t hold = mc::pick(HOLD, "hold"), wait = mc::pick(WAIT, "wait");
  int how = mc::choose(4, "variant");
  ghost.clear();
  Mutex m;
  sched::point("begin");
  th::Threads t;
  bool in = false;
  t.start([&] { m.lock(); { sched::Quiet q; in = true; } usleep(useconds_t(hold / 1000)); if (hold % 1000) { timespec s = {0, hold % 1000}; nanosleep(&s, nullptr); } m.unlock(); });
  for (;;) { { sched::Quiet q; if (in) break; } sched_yield(); }
  int64_t t0 = sched::now(), at = t0 + wait;
  TimeSpan span(wait / 1000000000, int32_t(wait % 1000000000));
  TimeStamp stamp(at / 1000000000, uint32_t(at % 1000000000));
  bool ok = how == 0 ? m.lock(span) : how == 1 ? m.lock(stamp) : how == 2 ? m.Lock(span) : m.Lock(stamp);
  int64_t t1 = sched::now();
  // the holder has it until t0 + hold (it may have slept a little before)
  if (ok) MC_CHECK(t1 <= at + 1000 || hold == 0, "late-success", "got the mutex %lld ns after the deadline", (long long)(t1 - at));
  else
  {
    MC_CHECK(t1 >= at, "gave-up-early", "gave up %lld ns before the deadline", (long long)(at - t1));
    MC_CHECK(t1 <= at + 2 * MS, "late", "gave up %lld ns after the deadline", (long long)(t1 - at));
  }
  if (hold > wait + 1000) MC_CHECK(!ok, "wrong-success", "the mutex was taken for %lld ns, waiting %lld ns succeeded", (long long)hold, (long long)wait);
  if (hold + 1000 < wait) MC_CHECK(ok, "missed", "the mutex was taken for %lld ns only, waiting %lld ns failed", (long long)hold, (long long)wait);
  if (ok) m.unlock();
  t.join();
  mc::outcome(ok ? "got it" : "gave up");
  mc::state(mc::mix(mc::mix(uint64_t(hold), uint64_t(wait)), uint64_t(how) * 2 + ok));
}

} // namespace

int main(int argc, char** argv)
{
  bool deep = false; for (int i = 1; i < argc; ++i) deep |= std::string(argv[i]) == "--thorough";
  std::vector<int> b2 = deep ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1, 2};
  std::vector<int> b1 = deep ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1};
  return mc::run(argc, argv, {
    sched::scenario("two threads, one operation each", pairs, b2),
    sched::scenario("two threads, two operations each", sequences, b1),
    sched::scenario("three threads", triples, b1),
    sched::scenario("deadlines", deadlines, {0}),
  });
}
