// T05: icl_core::thread::Thread against every short history of its controller and every schedule.
#include "threads.h"
#include <memory>
#include "icl_core_thread/Thread.h"
#include "icl_core_thread/Logging.h"
#include "icl_core/TimeStamp.h"
#include "icl_core/TimeSpan.h"

using icl_core::TimeSpan;
using icl_core::TimeStamp;

namespace {

const int64_t MS = 1000000;
enum Kind { QUICK, LOOP, WORK, NKINDS };
const char* KIND[] = {"returns at once", "loops until stopped", "works for 5ms"};

// ghost record of the body (written without scheduling points)
struct Ghost
{
  int begun, ended, cancelled, active;   // runs
  bool stop_called, self_wrong, early_stop, outside;
  int tid;
} gh;
long* result;                        // written by the body, read by the controller after a join

struct Body : public icl_core::thread::Thread
{
  int kind;
  Body(int k) : icl_core::thread::Thread("body"), kind(k) { }
  virtual ~Body() { }
  struct Run
  {
    Run() { sched::Quiet q; ++gh.begun; MC_CHECK(++gh.active == 1, "twice", "the body runs twice at the same time"); gh.tid = sched::self(); }
    ~Run() { sched::Quiet q; --gh.active; ++gh.ended; }
  };
  virtual void run()
  {
    Run r;
    sched::trace("body begins");
    int k = kind;                    // the object may lose its derived part while the body still runs
    bool self = threadSelf(), go = execute();
    { sched::Quiet q; if (!self) gh.self_wrong = true; if (!go && !gh.stop_called) gh.early_stop = true; }
    *result += 1;
    if (k == LOOP) while (execute()) usleep(1000);
    if (k == WORK) usleep(5000);
    *result += 1;
    sched::trace("body ends");
  }
};

bool ended() { sched::Quiet q; return gh.begun == gh.ended; }

struct Model
{
  bool started = false;              // a run was started and not joined since
  bool stopped = false;              // and asked to stop, or cancelled
  bool cancelled = false;
  int lo = 0, hi = 0;                // runs that must / may have begun
};

void afterJoin(Model& m, Body& b, const char* how)
{
  {
    sched::Quiet q;
    MC_CHECK(gh.active == 0, "join-early", "%s returned while the body still runs", how);
    if (!m.cancelled) MC_CHECK(gh.begun >= m.lo && gh.begun <= m.hi, "runs", "%d runs, expected %d to %d", gh.begun, m.lo, m.hi);
    else MC_CHECK(gh.begun <= m.hi, "runs", "%d runs, expected at most %d", gh.begun, m.hi);
  }
  long v = *result;                  // ordered with the body's writes
  if (!m.cancelled) MC_CHECK(v == 2 * gh.begun, "result", "the body's result is not visible");
  MC_CHECK(!b.running(), "state", "running() is true after %s", how);
  MC_CHECK(!b.execute(), "state", "execute() is true after %s", how);
  if (m.cancelled) { sched::Quiet q; m.lo = m.hi = gh.begun; *result = 2 * gh.begun; m.cancelled = false; }
  else { sched::Quiet q; m.lo = m.hi = gh.begun; }
  m.started = m.stopped = false;
}

enum Op { START, STOP, JOIN, WAIT, WAIT_SPAN, WAIT_STAMP, CANCEL, CHECK, NOPS };
const char* NAME[] = {"start", "stop", "join", "wait", "wait(2ms)", "wait(now+2ms)", "cancel", "check"};

bool create_fails;

void apply(Body& b, Model& m, int op)
{
  sched::trace("%s", NAME[op]);
  int64_t t0 = sched::now();
  // would this block for ever by definition?
  bool endless = m.started && !m.stopped && b.kind == LOOP;
  switch (op)
  {
    case START:
    {
      bool surely_running = endless;
      bool fresh = !m.started;
      int used = sched::preemptions();
      if (fresh) { sched::Quiet q; gh.stop_called = false; }
      bool ok = b.start();
      if (fresh)
      {
        if (!ok)
        {
          MC_CHECK(create_fails && sched::preemptions() > used, "start-failed", "start returned false although a thread could be created");
          MC_CHECK(!b.running(), "state", "running() is true after a failed start");
          return;
        }
        m.started = true; m.stopped = false; ++m.lo; ++m.hi;
        if (b.kind == LOOP) MC_CHECK(b.running() && b.execute(), "state", "running() or execute() is false after start");
      }
      else
      {
        // already started: if the body has ended meanwhile this is a new run, otherwise nothing happens
        if (surely_running) { MC_CHECK(ok, "start-running", "start on a running thread returned false"); }
        else
        {
          bool failed = !ok && create_fails && sched::preemptions() > used;
          ++m.hi;
          if (m.stopped && b.kind == LOOP)
          {
            // a new run of the loop may have begun, which nobody asked to stop
            b.stop(); m.stopped = true;
          }
          if (failed) { }
        }
      }
      break;
    }
    case STOP:
      { sched::Quiet q; gh.stop_called = true; }
      b.stop();
      if (m.started) m.stopped = true;
      MC_CHECK(!b.execute(), "state", "execute() is true after stop");
      break;
    case JOIN:
      if (endless) mc::prune();
      b.join();
      afterJoin(m, b, "join");
      break;
    case WAIT:
    {
      if (endless) mc::prune();
      bool ok = b.wait();
      MC_CHECK(ok, "wait-false", "wait without a limit returned false");
      afterJoin(m, b, "wait");
      break;
    }
    case WAIT_SPAN: case WAIT_STAMP:
    {
      bool was_ended = ended() && !m.started;
      int64_t at = t0 + 2 * MS;
      bool ok = op == WAIT_SPAN ? b.wait(TimeSpan(0, int32_t(2 * MS))) : b.wait(TimeStamp(at / 1000000000, uint32_t(at % 1000000000)));
      int64_t t1 = sched::now();
      if (ok) { MC_CHECK(!endless, "wait-true", "a timed wait reports that an endless body has ended"); afterJoin(m, b, NAME[op]); }
      else
      {
        MC_CHECK(!was_ended, "wait-false", "a timed wait failed on a thread that is not running");
        MC_CHECK(t1 >= at, "gave-up-early", "%s gave up %lld ns before its deadline", NAME[op], (long long)(at - t1));
        if (sched::preemptions() == 0)
        {
          MC_CHECK(t1 <= at + 2 * MS, "late", "%s returned %lld ns too late", NAME[op], (long long)(t1 - at));
          MC_CHECK(b.kind != QUICK, "wait-false", "%s failed although the body ends at once", NAME[op]);
        }
      }
      break;
    }
    case CANCEL:
      { sched::Quiet q; gh.stop_called = true; }
      b.cancel();
      MC_CHECK(!b.running(), "state", "running() is true after cancel");
      MC_CHECK(!b.execute(), "state", "execute() is true after cancel");
      if (m.started) { m.cancelled = true; m.stopped = true; }
      break;
    case CHECK:
      if (endless) MC_CHECK(b.running() && b.execute(), "state", "running() or execute() is false while the body loops");
      if (!m.started) MC_CHECK(!b.running(), "state", "running() is true although nothing was started");
      MC_CHECK(!b.threadSelf(), "self", "threadSelf() is true outside of the thread");
      break;
  }
}

void finish(Body* b, Model& m, int how, size_t blocks)
{
  // the ways to get rid of the object
  if (how == 1)                      // let the destructor stop and join, once the body has begun
  {
    while (m.started && sched::alive() > 0) { { sched::Quiet q; if (gh.active > 0) break; } usleep(100); }
  }
  if (how == 0 || how == 2)
  {
    { sched::Quiet q; gh.stop_called = true; }
    b->stop();
    m.stopped = true;
    if (how == 0) b->join(); else MC_CHECK(b->wait(), "wait-false", "wait without a limit returned false");
    afterJoin(m, *b, how == 0 ? "join" : "wait");
  }
  { sched::Quiet q; gh.stop_called = true; }
  sched::trace("delete");
  delete b;
  MC_CHECK(!gh.self_wrong, "self", "threadSelf() is false inside the thread");
  MC_CHECK(!gh.early_stop, "early-stop", "execute() was false in a body that nobody asked to stop");
  MC_CHECK(sched::alive() == 0, "left-running", "a thread still runs after its object was destroyed");
  MC_CHECK(sched::unjoined() == 0, "leak", "%d threads were never joined", sched::unjoined());
  MC_CHECK(sched::liveBlocks() == blocks, "leak", "%zu blocks of memory were not released", sched::liveBlocks() - blocks);
}

void reset() { gh = Ghost(); result = new long(0); sched::watch(result, sizeof *result, "the body's result"); }

int g_depth;
void histories()
{
  reset();
  size_t blocks = sched::liveBlocks();
  int kind = mc::choose(NKINDS, "body");
  sched::trace("a body that %s", KIND[kind]);
  Body* b = new Body(kind);
  Model m;
  uint64_t h = uint64_t(kind);
  int n = mc::choose(g_depth + 1, "operations");
  for (int i = 0; i < n; ++i) { int op = i == 0 ? mc::choose(NOPS, "first") : mc::choose(NOPS, "operation"); h = mc::mix(h, uint64_t(op)); apply(*b, m, op); }
  int how = mc::choose(3, "destroy");
  finish(b, m, how, blocks);
  mc::outcome(mc::format("%d runs", gh.begun));
  mc::state(mc::mix(h, uint64_t(how * 8 + gh.begun)));
}

// longer life: start, (operation), end it, start again, (operation), end it
void restarts()
{
  reset();
  size_t blocks = sched::liveBlocks();
  int kind = mc::choose(NKINDS, "body");
  Body* b = new Body(kind);
  Model m;
  uint64_t h = uint64_t(kind);
  for (int i = 0; i < 2; ++i)
  {
    apply(*b, m, START);
    int end = mc::choose(5, "end"); h = mc::mix(h, uint64_t(end));
    switch (end)
    {
      case 0: apply(*b, m, STOP); apply(*b, m, JOIN); break;
      case 1: apply(*b, m, STOP); apply(*b, m, WAIT); break;
      case 2: apply(*b, m, CANCEL); apply(*b, m, JOIN); break;
      case 3: apply(*b, m, CANCEL); apply(*b, m, WAIT); break;
      case 4: if (kind == LOOP) apply(*b, m, STOP); apply(*b, m, WAIT_SPAN); break;
    }
  }
  int how = mc::choose(3, "destroy");
  finish(b, m, how, blocks);
  mc::outcome(mc::format("%d runs", gh.begun));
  mc::state(mc::mix(h, uint64_t(how * 8 + gh.begun)));
}

// several threads wait for, stop and look at the same thread
void controllers()
{
  reset();
  size_t blocks = sched::liveBlocks();
  int kind = mc::choose(NKINDS, "body"), other = mc::choose(3, "other controller"), mine = mc::choose(2, "first controller");
  Body* b = new Body(kind);
  MC_CHECK(b->start(), "start-failed", "start returned false");
  {
    th::Threads t;
    t.start([&] {
      if (other == 0) { MC_CHECK(b->wait(), "wait-false", "wait without a limit returned false"); }
      else if (other == 1) { { sched::Quiet q; gh.stop_called = true; } b->stop(); MC_CHECK(b->wait(), "wait-false", "wait without a limit returned false"); }
      else { b->wait(TimeSpan(0, int32_t(2 * MS))); return; }
      sched::Quiet q; MC_CHECK(gh.active == 0 && gh.begun == 1, "join-early", "wait returned before the body has ended");
    });
    { sched::Quiet q; gh.stop_called = true; }
    b->stop();
    if (mine == 0) MC_CHECK(b->wait(), "wait-false", "wait without a limit returned false"); else b->join();
    { sched::Quiet q; MC_CHECK(gh.active == 0 && gh.begun == 1, "join-early", "the thread was joined before the body has ended"); }
    t.join();
  }
  MC_CHECK(!b->running(), "state", "running() is true after everybody waited for the end");
  Model m; m.lo = m.hi = 1;
  finish(b, m, 1, blocks);
  mc::state(uint64_t(kind * 8 + other * 2 + mine));
}

// a thread is waited for, stopped or looked at by others while it is being started (again)
void whileStarting()
{
  reset();
  size_t blocks = sched::liveBlocks();
  int kind = mc::choose(NKINDS, "body"), before = mc::choose(2, "runs before"), what = mc::choose(4, "other controller");
  Body* b = new Body(kind);
  if (before)
  {
    MC_CHECK(b->start(), "start-failed", "start returned false");
    { sched::Quiet q; gh.stop_called = true; }
    b->stop(); b->join();
  }
  { sched::Quiet q; gh.stop_called = true; }   // the other controller may stop the body as soon as it begins
  bool started = false;
  {
    th::Threads t;
    t.start([&] {
      bool surely, waits = what != 2;
      { sched::Quiet q; surely = started; }
      if (what == 2)
      {
        // looking at it must neither disturb the start nor end before it
        (void)b->running(); (void)b->execute();
        MC_CHECK(!b->threadSelf(), "self", "threadSelf() is true outside of the thread");
        return;
      }
      if (what == 1) b->stop();
      int64_t t0 = sched::now();
      bool ok = what == 3 ? b->wait(TimeSpan(0, int32_t(2 * MS))) : b->wait();
      if (what != 3) MC_CHECK(ok, "wait-false", "wait without a limit returned false while the thread was being started");
      if (!ok) MC_CHECK(sched::now() >= t0 + 2 * MS, "gave-up-early", "wait gave up before its deadline");
      sched::Quiet q;
      if (ok && surely && waits) MC_CHECK(gh.ended == before + 1, "join-early", "wait returned true although the started body has not ended");
    });
    bool ok = b->start();
    { sched::Quiet q; started = true; }
    MC_CHECK(ok, "start-failed", "start returned false");
    // the loop has to be stopped by somebody
    b->stop();
    MC_CHECK(b->wait(), "wait-false", "wait without a limit returned false");
    { sched::Quiet q; MC_CHECK(gh.active == 0 && gh.begun == before + 1 && gh.ended == before + 1, "runs", "%d runs, %d ended, expected %d", gh.begun, gh.ended, before + 1); }
    t.join();
  }
  MC_CHECK(!b->running() && !b->execute(), "state", "running() or execute() is true after everybody waited for the end");
  Model m; m.lo = m.hi = before + 1;
  finish(b, m, 1, blocks);
  mc::outcome(mc::format("%d runs", gh.begun));
  mc::state(uint64_t(kind * 8 + before * 4 + what));
}

} // namespace

int main(int argc, char** argv)
{
  bool deep = false; for (int i = 1; i < argc; ++i) deep |= std::string(argv[i]) == "--thorough";
  icl_core::thread::IclCoreThread::instance().setActive(false);
  g_depth = deep ? 4 : 3;
  std::vector<int> b1 = deep ? std::vector<int>{0, 1, 2} : std::vector<int>{0, 1};
  std::vector<int> b2 = deep ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1, 2};
  sched::Options o, of; of.create_fails = true;
  return mc::run(argc, argv, {
    sched::scenario("restarts", restarts, b2, o),
    sched::scenario("histories", [] { create_fails = true; histories(); }, b1, of),
    sched::scenario("several controllers", controllers, b2, o),
    sched::scenario("controllers while it starts", whileStarting, b2, o),
  });
}
