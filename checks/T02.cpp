// T02: shared readers and exclusive writers of icl_core::thread::RWLock in every schedule.
#include "threads.h"
#include <stdexcept>
#include "icl_core_thread/RWLock.h"
#include "icl_core_thread/ScopedRWLock.h"
#include "icl_core/TimeStamp.h"
#include "icl_core/TimeSpan.h"

using icl_core::TimeSpan;
using icl_core::TimeStamp;
using icl_core::thread::RWLock;
using icl_core::thread::ScopedRWLock;

namespace {

const int64_t MS = 1000000;
enum Op { LOCK, TRY, SPAN, STAMP, ZERO, PAST, SCOPED, SCOPED_THROW, OLD_LOCK, OLD_TRY, OLD_SPAN, OLD_STAMP, NOPS };
const char* NAME[] = {"lock", "try", "10ms", "now+10ms", "0", "past", "scoped", "scoped+throw", "(old) lock", "(old) try", "(old) 10ms", "(old) now+10ms"};

struct Shared { long a, b; };
Shared* g;
th::LockGhost ghost;
int together;                        // most readers seen inside at once

void section(bool write, int64_t hold)
{
  long v = g->a;
  if (write) g->a = v + 1;
  { sched::Quiet q; int n = 0; for (int i = 0; i < th::LockGhost::N; ++i) n += ghost.sure_r[i] > 0; if (n > together) together = n; }
  if (hold) usleep(useconds_t(hold / 1000)); else sched::point("inside");
  MC_CHECK(g->b == v, "data", "the protected data changed during a %s section", write ? "write" : "read");
  if (write) g->b = v + 1;
  else MC_CHECK(g->a == v, "data", "the protected data changed during a read section");
}

void oneOp(RWLock& m, bool w, int op, int64_t hold, int& entered)
{
  int t = sched::self();
  int64_t t0 = sched::now();
  sched::trace("%s %s%s", w ? "write" : "read", NAME[op], hold ? ", holds it 20ms" : "");
  if (op == SCOPED || op == SCOPED_THROW)
  {
    ghost.call(t, w);
    try
    {
      ScopedRWLock l(m, w ? ScopedRWLock::eLM_WRITE_LOCK : ScopedRWLock::eLM_READ_LOCK);
      MC_CHECK(l.isLocked() && bool(l), "scoped", "a scoped lock does not report that it is locked");
      ghost.acquired(t, w, NAME[op]);
      section(w, hold); ++entered;
      ghost.releasing(t, w);
      if (op == SCOPED_THROW) throw std::runtime_error("x");
    }
    catch (const std::runtime_error&) { }
    ghost.released(t, w);
    return;
  }
  bool ok = false, timed = true; int64_t deadline = 0;
  int64_t at = t0 + 10 * MS;
  TimeStamp stamp(at / 1000000000, uint32_t(at % 1000000000)); TimeSpan span(0, int32_t(10 * MS));
  ghost.call(t, w);
  switch (op)
  {
    case LOCK: ok = w ? m.writeLock() : m.readLock(); timed = false; break;
    case OLD_LOCK: ok = w ? m.WriteLock() : m.ReadLock(); timed = false; break;
    case TRY: ok = w ? m.tryWriteLock() : m.tryReadLock(); deadline = INT64_MIN; break;
    case OLD_TRY: ok = w ? m.TryWriteLock() : m.TryReadLock(); deadline = INT64_MIN; break;
    case SPAN: ok = w ? m.writeLock(span) : m.readLock(span); deadline = at; break;
    case OLD_SPAN: ok = w ? m.WriteLock(span) : m.ReadLock(span); deadline = at; break;
    case ZERO: ok = w ? m.writeLock(TimeSpan(0, 0)) : m.readLock(TimeSpan(0, 0)); deadline = t0; break;
    case STAMP: ok = w ? m.writeLock(stamp) : m.readLock(stamp); deadline = at; break;
    case OLD_STAMP: ok = w ? m.WriteLock(stamp) : m.ReadLock(stamp); deadline = at; break;
    case PAST: ok = w ? m.writeLock(TimeStamp(10, 0)) : m.readLock(TimeStamp(10, 0)); deadline = INT64_MIN; break;
  }
  int64_t t1 = sched::now();
  sched::trace("%s: %s", NAME[op], ok ? "true" : "false");
  if (!ok)
  {
    MC_CHECK(timed, "lock-failed", "%s %s returned false", w ? "write" : "read", NAME[op]);
    MC_CHECK(ghost.otherMayHold(t, w), "refused-free", "%s %s failed although nobody was in the way", w ? "write" : "read", NAME[op]);
    MC_CHECK(t1 >= deadline, "gave-up-early", "%s gave up %lld ns before its deadline", NAME[op], (long long)(deadline - t1));
    if (sched::preemptions() == 0)
      MC_CHECK(t1 <= (deadline > t0 ? deadline : t0) + 2 * MS, "late", "%s returned %lld ns too late", NAME[op], (long long)(t1 - (deadline > t0 ? deadline : t0)));
    ghost.refused(t, w);
    return;
  }
  ghost.acquired(t, w, NAME[op]);
  section(w, hold); ++entered;
  ghost.releasing(t, w);
  if (op == OLD_LOCK || op == OLD_TRY) m.Unlock(); else m.unlock();
  ghost.released(t, w);
}

struct Step { bool w; int op; bool hold; };
void runThreads(const std::vector<std::vector<Step>>& p)
{
  int n = int(p.size());
  ghost.clear(); together = 0;
  g = new Shared(); sched::watch(g, sizeof *g, "the protected data");
  int entered[4] = {0, 0, 0, 0};
  {
    RWLock m;
    {
      th::Threads t;
      for (int i = 0; i < n; ++i)
        t.start([&, i] { for (const Step& s : p[i]) oneOp(m, s.w, s.op, s.hold ? 20 * MS : 0, entered[i]); });
      t.join();
    }
    int64_t t0 = sched::now();
    MC_CHECK(m.tryWriteLock(), "left-locked", "the lock is still taken after every thread released it");
    m.unlock();
    MC_CHECK(m.writeLock(TimeSpan(1, 0)) && sched::now() == t0, "left-locked", "the lock could not be taken for writing at once after every thread released it");
    m.unlock();
    MC_CHECK(m.tryReadLock(), "left-locked", "the lock cannot be taken for reading after every thread released it");
    MC_CHECK(m.readLock(TimeSpan(1, 0)) && sched::now() == t0, "not-shared", "a second read lock was not granted at once");
    m.unlock(); m.unlock();
  }
  long writes = 0; bool allw[4] = {true, true, true, true};
  (void)allw;
  uint64_t h = uint64_t(n);
  for (int i = 0; i < n; ++i) { for (const Step& s : p[i]) h = mc::mix(h, uint64_t(s.op * 4 + s.w * 2 + s.hold)); h = mc::mix(h, uint64_t(entered[i])); }
  bool mixed = false;
  for (int i = 0; i < n; ++i) { bool w = true, r = true; for (const Step& s : p[i]) (s.w ? r : w) = false; if (w) writes += entered[i]; else if (!r) mixed = true; }
  if (!mixed) MC_CHECK(g->a == writes, "lost", "%ld write sections, the data says %ld", writes, g->a);
  MC_CHECK(g->a == g->b, "lost", "the data is inconsistent at the end");
  mc::outcome(mc::format("%d readers together", together));
  mc::state(mc::mix(h, uint64_t(sched::now() * 4 + together)));
}

void pairs()
{
  std::vector<std::vector<Step>> p(2);
  for (int i = 0; i < 2; ++i) { Step s; s.w = mc::flip("write"); s.op = mc::choose(NOPS, "operation"); s.hold = mc::flip("hold"); p[i].push_back(s); }
  runThreads(p);
}
void sequences()
{
  static const int S[] = {LOCK, TRY, SPAN};
  std::vector<std::vector<Step>> p(2);
  for (int i = 0; i < 2; ++i) for (int k = 0; k < 2; ++k) { Step s; s.w = mc::flip("write"); s.op = mc::pick(S, "operation"); s.hold = i == 1 && k == 0; p[i].push_back(s); }
  runThreads(p);
}
void triples()
{
  static const int S[] = {LOCK, TRY, SPAN, SCOPED};
  std::vector<std::vector<Step>> p(3);
  for (int i = 0; i < 3; ++i) { Step s; s.w = mc::flip("write"); s.op = mc::pick(S, "operation"); s.hold = i == 0; p[i].push_back(s); }
  runThreads(p);
}

// readers may all be inside at the same time: there is a schedule, and the lock allows it without waiting
void sharing()
{
  ghost.clear();
  RWLock m;
  int n = 2 + mc::choose(3, "readers");
  int op[4]; for (int i = 0; i < n; ++i) { static const int S[] = {LOCK, TRY, SPAN, SCOPED, PAST, ZERO}; op[i] = mc::pick(S, "operation"); }
  for (int i = 0; i < n; ++i)
  {
    bool ok = true;
    int64_t t0 = sched::now();
    switch (op[i])
    {
      case LOCK: case SCOPED: ok = m.readLock(); break;
      case TRY: ok = m.tryReadLock(); break;
      case SPAN: ok = m.readLock(TimeSpan(0, int32_t(10 * MS))); break;
      case PAST: ok = m.readLock(TimeStamp(10, 0)); break;
      case ZERO: ok = m.readLock(TimeSpan(0, 0)); break;
    }
    MC_CHECK(ok && sched::now() == t0, "not-shared", "read lock number %d (%s) was not granted at once", i + 1, NAME[op[i]]);
    MC_CHECK(!m.tryWriteLock(), "mutual-exclusion", "a write lock was granted beside %d readers", i + 1);
    int64_t t1 = sched::now();
    MC_CHECK(!m.writeLock(TimeSpan(0, int32_t(3 * MS))), "mutual-exclusion", "a timed write lock was granted beside %d readers", i + 1);
    MC_CHECK(sched::now() >= t1 + 3 * MS && sched::now() <= t1 + 5 * MS, "late", "a timed write lock took %lld ns instead of 3 ms", (long long)(sched::now() - t1));
  }
  for (int i = 0; i < n; ++i) { MC_CHECK(!m.tryWriteLock(), "mutual-exclusion", "a write lock was granted beside %d readers", n - i); m.unlock(); }
  MC_CHECK(m.tryWriteLock(), "left-locked", "no write lock after all readers left");
  MC_CHECK(!m.tryReadLock(), "mutual-exclusion", "a read lock was granted beside the writer");
  m.unlock();
  mc::state(uint64_t(n));
}

void deadlines()
{
  static const int64_t HOLD[] = {0, 5 * MS, 10 * MS, 20 * MS, 1500 * MS};
  static const int64_t WAIT[] = {0, 1000, 10 * MS, 999999999, 1000000000, 1000000001, 2500 * MS};
  int64_t hold = mc::pick(HOLD, "hold"), wait = mc::pick(WAIT, "wait");
  int how = mc::choose(8, "variant"); bool holder_writes = mc::flip("holder writes"); bool w = how & 1;
  RWLock m;
  th::Threads t;
  bool in = false;
  t.start([&] { if (holder_writes) m.writeLock(); else m.readLock(); { sched::Quiet q; in = true; } usleep(useconds_t(hold / 1000)); m.unlock(); });
  for (;;) { { sched::Quiet q; if (in) break; } sched_yield(); }
  int64_t t0 = sched::now(), at = t0 + wait;
  TimeSpan span(wait / 1000000000, int32_t(wait % 1000000000));
  TimeStamp stamp(at / 1000000000, uint32_t(at % 1000000000));
  bool ok = false;
  switch (how >> 1)
  {
    case 0: ok = w ? m.writeLock(span) : m.readLock(span); break;
    case 1: ok = w ? m.writeLock(stamp) : m.readLock(stamp); break;
    case 2: ok = w ? m.WriteLock(span) : m.ReadLock(span); break;
    case 3: ok = w ? m.WriteLock(stamp) : m.ReadLock(stamp); break;
  }
  int64_t t1 = sched::now();
  bool share = !w && !holder_writes;
  if (share) MC_CHECK(ok && t1 == t0, "not-shared", "a reader was not let in beside another");
  else
  {
    if (ok) MC_CHECK(t1 <= at + 1000 || hold == 0, "late-success", "got the lock %lld ns after the deadline", (long long)(t1 - at));
    else
    {
      MC_CHECK(t1 >= at, "gave-up-early", "gave up %lld ns before the deadline", (long long)(at - t1));
      MC_CHECK(t1 <= at + 2 * MS, "late", "gave up %lld ns after the deadline", (long long)(t1 - at));
    }
    if (hold > wait + 1000) MC_CHECK(!ok, "wrong-success", "the lock was taken for %lld ns, waiting %lld ns succeeded", (long long)hold, (long long)wait);
    if (hold + 1000 < wait) MC_CHECK(ok, "missed", "the lock was taken for %lld ns only, waiting %lld ns failed", (long long)hold, (long long)wait);
  }
  if (ok) m.unlock();
  t.join();
  mc::outcome(ok ? "got it" : "gave up");
  mc::state(mc::mix(mc::mix(uint64_t(hold), uint64_t(wait)), uint64_t(how) * 4 + holder_writes * 2 + ok));
}

} // namespace

int main(int argc, char** argv)
{
  bool deep = false; for (int i = 1; i < argc; ++i) deep |= std::string(argv[i]) == "--thorough";
  std::vector<int> b2 = deep ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1};
  std::vector<int> b1 = deep ? std::vector<int>{0, 1, 2} : std::vector<int>{0, 1};
  return mc::run(argc, argv, {
    sched::scenario("two threads, one operation each", pairs, b2),
    sched::scenario("two threads, two operations each", sequences, b1),
    sched::scenario("three threads", triples, b1),
    sched::scenario("sharing", sharing, {0}),
    sched::scenario("deadlines", deadlines, {0}),
  });
}
