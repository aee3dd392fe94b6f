// T03: exact counting of icl_core::thread::Semaphore and icl_core::logging::Semaphore in every schedule,
// with deadlines passing and signals interrupting waits at every possible point.
#include "threads.h"
#include "icl_core_thread/Sem.h"
#include "icl_core_logging/Semaphore.h"
#include "icl_core_logging/ScopedSemaphore.h"
#include "icl_core/TimeStamp.h"
#include "icl_core/TimeSpan.h"

using icl_core::TimeSpan;
using icl_core::TimeStamp;

namespace {

const int64_t MS = 1000000;
enum Op { POST, WAIT, TRY, SPAN, STAMP, ZERO, PAST, OLD_WAIT, OLD_TRY, OLD_SPAN, OLD_STAMP, SCOPED, NOPS };
const char* NAME[] = {"post", "wait", "tryWait", "wait(10ms)", "wait(now+10ms)", "wait(0)", "wait(past)", "Wait", "TryWait", "Wait(10ms)",
                      "Wait(now+10ms)", "scoped"};

// ghost: what has certainly and what may have happened to the counter
struct Ghost
{
  int init, posts_begun, posts_done, taken, calls;
  bool in[12]; int least[12];
  void clear(int n) { init = n; posts_begun = posts_done = taken = calls = 0; for (int i = 0; i < 12; ++i) { in[i] = false; least[i] = 0; } }
  void upd() { for (int i = 0; i < 12; ++i) if (in[i]) { int a = init + posts_done - taken - (calls - 1); if (a < least[i]) least[i] = a; } }
  void begin(int t) { sched::Quiet q; in[t] = true; ++calls; least[t] = 1 << 30; upd(); }
  void got(int t, const char* how)
  {
    sched::Quiet q; in[t] = false; --calls; ++taken; upd();
    if (taken > init + posts_begun) mc::fail("too-many", "%s succeeded although only %d units existed and %d were taken", how, init + posts_begun, taken - 1);
  }
  bool refused(int t) { sched::Quiet q; upd(); in[t] = false; --calls; bool ok = least[t] <= 0; upd(); return ok; }
  void post() { sched::Quiet q; ++posts_begun; }
  void posted() { sched::Quiet q; ++posts_done; upd(); }
} ghost;

long box;                            // handed over through the semaphore

template <class S> struct Calls;
template <> struct Calls<icl_core::thread::Semaphore>
{
  typedef icl_core::thread::Semaphore S;
  static bool has(int) { return true; }
  static bool tryWait(S& s) { return s.tryWait(); }
  static bool run(S& s, int op, int64_t t0, int64_t& deadline, bool& timed)
  {
    int64_t at = t0 + 10 * MS; TimeStamp stamp(at / 1000000000, uint32_t(at % 1000000000)); TimeSpan span(0, int32_t(10 * MS));
    timed = true; deadline = at;
    switch (op)
    {
      case WAIT: timed = false; return s.wait();
      case OLD_WAIT: timed = false; return s.Wait();
      case TRY: deadline = INT64_MIN; return s.tryWait();
      case OLD_TRY: deadline = INT64_MIN; return s.TryWait();
      case SPAN: return s.wait(span);
      case OLD_SPAN: return s.Wait(span);
      case STAMP: return s.wait(stamp);
      case OLD_STAMP: return s.Wait(stamp);
      case ZERO: deadline = t0; return s.wait(TimeSpan(0, 0));
      case PAST: deadline = INT64_MIN; return s.wait(TimeStamp(10, 0));
    }
    return false;
  }
};

template <class S> void oneOp(S& s, int op, int& got)
{
  int t = sched::self();
  int64_t t0 = sched::now();
  if (op == POST)
  {
    ghost.post(); sched::trace("post"); s.post(); ghost.posted();
    return;
  }
  int64_t deadline = 0; bool timed = true;
  ghost.begin(t);
  bool ok = Calls<S>::run(s, op, t0, deadline, timed);
  int64_t t1 = sched::now();
  sched::trace("%s: %s", NAME[op], ok ? "true" : "false");
  if (ok) { ghost.got(t, NAME[op]); ++got; return; }
  bool justified = ghost.refused(t);
  MC_CHECK(timed, "wait-failed", "%s returned false", NAME[op]);
  MC_CHECK(justified, "refused-available", "%s failed although a unit was available all the time", NAME[op]);
  MC_CHECK(t1 >= deadline, "gave-up-early", "%s gave up %lld ns before its deadline", NAME[op], (long long)(deadline - t1));
  if (sched::preemptions() == 0)
    MC_CHECK(t1 <= (deadline > t0 ? deadline : t0) + 2 * MS, "late", "%s returned %lld ns too late", NAME[op], (long long)(t1 - (deadline > t0 ? deadline : t0)));
}

void runThreads(int init, const std::vector<std::vector<int>>& p)
{
  int n = int(p.size()), waits = 0, posts = 0, got[4] = {0, 0, 0, 0};
  ghost.clear(init);
  for (auto& v : p) for (int o : v) (o == POST ? posts : waits)++;
  uint64_t h = uint64_t(init);
  {
    icl_core::thread::Semaphore s(init);
    th::Threads t;
    for (int i = 0; i < n; ++i) t.start([&, i] { for (int o : p[i]) oneOp(s, o, got[i]); });
    // enough units for everybody: a thread that stays blocked is a lost wake-up
    for (int k = init; k < waits; ++k) { ghost.post(); s.post(); ghost.posted(); }
    t.join();
    int left = 0, want = init + ghost.posts_done - ghost.taken;
    while (left <= want + 1 && s.tryWait()) ++left;
    MC_CHECK(left == want, "count", "%d units and %d posts, %d taken, %d left", init, ghost.posts_done, ghost.taken, left);
    int64_t t0 = sched::now();
    MC_CHECK(!s.wait(TimeSpan(0, int32_t(3 * MS))) && sched::now() >= t0 + 3 * MS, "count", "a timed wait on an empty semaphore did not wait and fail");
  }
  for (int i = 0; i < n; ++i) { for (int o : p[i]) h = mc::mix(h, uint64_t(o)); h = mc::mix(h, uint64_t(got[i])); }
  mc::outcome(mc::format("%d of %d", ghost.taken, waits));
  mc::state(mc::mix(h, uint64_t(sched::now())));
}

void pairs()
{
  int init = mc::choose(3, "initial value");
  std::vector<std::vector<int>> p(2);
  for (int i = 0; i < 2; ++i) p[i].push_back(mc::choose(SCOPED, "operation"));
  p[1].push_back(mc::choose(2, "second") ? POST : WAIT);
  runThreads(init, p);
}
void sequences()
{
  static const int S[] = {POST, WAIT, TRY, SPAN};
  int init = mc::choose(2, "initial value");
  std::vector<std::vector<int>> p(2);
  for (int i = 0; i < 2; ++i) for (int k = 0; k < 2; ++k) p[i].push_back(mc::pick(S, "operation"));
  runThreads(init, p);
}
void triples()
{
  static const int S[] = {POST, WAIT, TRY, SPAN, STAMP};
  int init = mc::choose(2, "initial value");
  std::vector<std::vector<int>> p(3);
  for (int i = 0; i < 3; ++i) p[i].push_back(mc::pick(S, "operation"));
  runThreads(init, p);
}

// an unshared semaphore is a counter: every initial value and every short sequence of operations
void counter()
{
  static const unsigned INIT[] = {0, 1, 2, 3, 4, 8, 16, 255, 256, 257, 1000};
  unsigned init = mc::pick(INIT, "initial value"), units = init;
  ghost.clear(int(init));
  icl_core::thread::Semaphore s(init);
  for (int i = 0; i < 3; ++i)
  {
    int op = mc::choose(SCOPED, "operation"), got = 0;
    if ((op == WAIT || op == OLD_WAIT) && units == 0) mc::prune();
    oneOp(s, op, got);
    if (op == POST) ++units;
    else if (got) --units;
    else MC_CHECK(units == 0, "refused-available", "%s failed with %u units left", NAME[op], units);
  }
  unsigned left = 0;
  while (left <= units && s.tryWait()) ++left;
  MC_CHECK(left == units, "count", "initial value %u: %u units left, expected %u", init, left, units);
}

// units hand data over: what was written before a post is seen after the wait that took it
void handover()
{
  int how = mc::choose(5, "variant");
  box = 0; sched::watch(&box, sizeof box, "the data handed over");
  icl_core::thread::Semaphore s(0), back(0);
  th::Threads t;
  t.start([&] { for (int i = 1; i <= 2; ++i) { box = i; s.post(); back.wait(); } });
  for (int i = 1; i <= 2; ++i)
  {
    static const int OPS[] = {WAIT, TRY, SPAN, STAMP, OLD_WAIT};
    int64_t dl; bool tm; int tries = 0;
    while (!Calls<icl_core::thread::Semaphore>::run(s, OPS[how], sched::now(), dl, tm)) { MC_CHECK(OPS[how] != WAIT && OPS[how] != OLD_WAIT, "wait-failed", "wait returned false"); if (++tries > 50) mc::prune(); sched_yield(); }
    MC_CHECK(box == i, "handover", "the receiver saw %ld instead of %d", box, i);
    back.post();
  }
  t.join();
  mc::state(uint64_t(how));
}

// logging's own semaphore and its scoped form: as a mutex with the default value 1 and as a counter
void logMutex()
{
  int threads = 2 + mc::choose(2, "threads"), how = mc::choose(3, "variant");
  box = 0; sched::watch(&box, sizeof box, "the protected data");
  int inside = 0;
  {
    icl_core::logging::Semaphore s;                     // 1 by default
    th::Threads t;
    for (int i = 0; i < threads; ++i)
      t.start([&] {
        auto section = [&] {
          { sched::Quiet q; MC_CHECK(++inside == 1, "mutual-exclusion", "%d threads inside a semaphore of one unit", inside); }
          long v = box; sched::point("inside"); box = v + 1;
          { sched::Quiet q; --inside; }
        };
        if (how == 0) { icl_core::logging::ScopedSemaphore l(s); MC_CHECK(l.isDecremented() && bool(l) && l.IsDecremented(), "wait-failed", "a scoped semaphore was not decremented"); section(); }
        else { MC_CHECK(how == 1 ? s.wait() : s.Wait(), "wait-failed", "wait returned false"); section(); if (how == 1) s.post(); else s.Post(); }
      });
    t.join();
    MC_CHECK(box == threads, "lost", "%d critical sections, the data says %ld", threads, box);
    MC_CHECK(s.wait(), "wait-failed", "the semaphore is not available after everybody left");
  }
  mc::state(uint64_t(threads * 4 + how));
}
void logCounter()
{
  int init = mc::choose(3, "initial value"), takers = 1 + mc::choose(2, "waiting threads"), posts = init < takers ? takers - init : 0;
  ghost.clear(init);
  {
    icl_core::logging::Semaphore s(init);
    th::Threads t;
    for (int i = 0; i < takers; ++i)
      t.start([&] { int me = sched::self(); ghost.begin(me); bool ok = s.wait(); MC_CHECK(ok, "wait-failed", "wait returned false"); ghost.got(me, "wait"); });
    for (int i = 0; i < posts; ++i) { ghost.post(); s.post(); ghost.posted(); }
    t.join();
    // the remaining units, and not one more
    int left = init + posts - takers;
    for (int i = 0; i < left; ++i) MC_CHECK(s.wait(), "wait-failed", "a remaining unit cannot be taken");
    bool done = false;
    th::Threads u;
    u.start([&] { bool ok = s.wait(); MC_CHECK(ok, "wait-failed", "wait returned false"); sched::Quiet q; done = true; });
    usleep(1000);
    { sched::Quiet q; MC_CHECK(!done, "too-many", "a unit more than were posted was taken"); }
    s.post();
    u.join();
  }
  mc::state(uint64_t(init * 8 + takers));
}

} // namespace

int main(int argc, char** argv)
{
  bool deep = false; for (int i = 1; i < argc; ++i) deep |= std::string(argv[i]) == "--thorough";
  std::vector<int> b2 = deep ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1, 2};
  std::vector<int> b1 = deep ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1};
  sched::Options o; o.interrupts = true;
  return mc::run(argc, argv, {
    sched::scenario("two threads", pairs, b1, o),
    sched::scenario("two threads, two operations each", sequences, b1, o),
    sched::scenario("three threads", triples, b1, o),
    sched::scenario("handing data over", handover, b1, o),
    sched::scenario("counter", counter, {0}, sched::Options()),
    sched::scenario("logging: mutual exclusion", logMutex, b2, o),
    sched::scenario("logging: counting", logCounter, b2, o),
  });
}
