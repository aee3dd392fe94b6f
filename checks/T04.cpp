// T04: mutual exclusion of icl_core::thread::SpinLock and ScopedSpinLock in every schedule.
#include "threads.h"
#include <stdexcept>
#include "icl_core/Noncopyable.h"
#include "icl_core_thread/SpinLock.h"
#include "icl_core_thread/ScopedSpinLock.h"

using icl_core::thread::SpinLock;
using icl_core::thread::ScopedSpinLock;

namespace {

enum Op { LOCK, TRY, SCOPED, SCOPED_THROW, TRY_TWICE, NOPS };
const char* NAME[] = {"lock", "tryLock", "scoped", "scoped+throw", "tryLock, tryLock"};
struct Shared { long a, b; };
Shared* g;
th::LockGhost ghost;

void section(int how)
{
  long v = g->a;
  g->a = v + 1;
  if (how == 1) sched::point("inside");
  if (how == 2) usleep(1000);
  MC_CHECK(g->b == v, "data", "the protected data changed while the lock was held");
  g->b = v + 1;
}

void oneOp(SpinLock& m, int op, int how, int& entered)
{
  int t = sched::self();
  sched::trace("%s", NAME[op]);
  ghost.call(t, true);
  if (op == SCOPED || op == SCOPED_THROW)
  {
    try
    {
      ScopedSpinLock l(m);
      MC_CHECK(l.isLocked() && bool(l), "scoped", "a scoped lock does not report that it is locked");
      ghost.acquired(t, true, NAME[op]);
      section(how); ++entered;
      ghost.releasing(t, true);
      if (op == SCOPED_THROW) throw std::runtime_error("x");
    }
    catch (const std::runtime_error&) { }
    ghost.released(t, true);
    return;
  }
  bool ok = op == LOCK ? m.lock() : m.tryLock();
  sched::trace("%s: %s", NAME[op], ok ? "true" : "false");
  if (!ok)
  {
    MC_CHECK(op != LOCK, "lock-failed", "lock returned false");
    MC_CHECK(ghost.otherMayHold(t, true), "refused-free", "tryLock failed although no other thread had the lock");
    ghost.refused(t, true);
    return;
  }
  ghost.acquired(t, true, NAME[op]);
  if (op == TRY_TWICE) MC_CHECK(!m.tryLock(), "mutual-exclusion", "tryLock succeeded on a lock that is held");
  section(how); ++entered;
  ghost.releasing(t, true);
  m.unlock();
  ghost.released(t, true);
}

void runThreads(const std::vector<std::vector<int>>& p, int how)
{
  int n = int(p.size()), entered[4] = {0, 0, 0, 0};
  ghost.clear();
  g = new Shared(); sched::watch(g, sizeof *g, "the protected data");
  SpinLock* m = new SpinLock;
  {
    th::Threads t;
    for (int i = 0; i < n; ++i) t.start([&, i] { for (int o : p[i]) oneOp(*m, o, how, entered[i]); });
    t.join();
  }
  MC_CHECK(m->tryLock(), "left-locked", "the lock is still taken after every thread released it");
  MC_CHECK(!m->tryLock(), "mutual-exclusion", "tryLock succeeded on a lock that is held");
  m->unlock();
  MC_CHECK(m->lock(), "lock-failed", "lock returned false");
  MC_CHECK(!m->tryLock(), "mutual-exclusion", "tryLock succeeded on a lock that is held");
  m->unlock();
  delete m;
  long sum = 0; uint64_t h = uint64_t(how);
  for (int i = 0; i < n; ++i) { sum += entered[i]; for (int o : p[i]) h = mc::mix(h, uint64_t(o)); h = mc::mix(h, uint64_t(entered[i])); }
  MC_CHECK(g->a == sum && g->b == sum, "lost", "%ld critical sections, the data says %ld", sum, g->a);
  mc::outcome(mc::format("%ld in", sum));
  mc::state(h);
}
void pairs()
{
  int how = mc::choose(3, "inside");
  std::vector<std::vector<int>> p(2);
  for (int i = 0; i < 2; ++i) for (int k = 0; k < 2; ++k) { int o = mc::choose(k ? NOPS + 1 : NOPS, "operation"); if (o < NOPS) p[i].push_back(o); }
  runThreads(p, how);
}
void triples()
{
  static const int S[] = {LOCK, TRY, SCOPED};
  int how = mc::choose(2, "inside");
  std::vector<std::vector<int>> p(3);
  for (int i = 0; i < 3; ++i) p[i].push_back(mc::pick(S, "operation"));
  runThreads(p, how);
}
// one thread works under the lock while the others come and go
void traffic()
{
  std::vector<std::vector<int>> p(3);
  static const int S[] = {LOCK, TRY};
  for (int i = 0; i < 3; ++i) for (int k = 0; k < (i ? 1 : 3); ++k) p[i].push_back(mc::pick(S, "operation"));
  runThreads(p, 0);
}

} // namespace

int main(int argc, char** argv)
{
  bool deep = false; for (int i = 1; i < argc; ++i) deep |= std::string(argv[i]) == "--thorough";
  std::vector<int> b2 = deep ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1};
  std::vector<int> b3 = deep ? std::vector<int>{0, 1, 2, 3, 4} : std::vector<int>{0, 1, 2};
  return mc::run(argc, argv, {
    sched::scenario("two threads", pairs, b2),
    sched::scenario("three threads", triples, b3),
    sched::scenario("traffic", traffic, b2),
  });
}
