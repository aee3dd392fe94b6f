// T06: icl_core::thread::ActiveObject: every queued operation exactly once, in order, on the object's own thread.
#include "threads.h"
#include <semaphore.h>
#include "icl_core_thread/ActiveObject.h"
#include "icl_core_thread/ActiveOperation.h"
#include "icl_core_thread/Logging.h"

namespace {

const int MAXOPS = 16;
struct OpRec { int producer, made, invoked, deleted; bool before_stop, after_stop, may_drop; };
struct Ghost
{
  OpRec op[MAXOPS]; int n;
  int order[MAXOPS], norder;         // operations in the order of execution
  int active, started, stopped, worker, wrong_thread;
  bool stop_begun, stop_done;
  void clear() { *this = Ghost(); worker = -1; }
} gh;
sem_t done;                          // one unit per executed operation
long* cell;                          // written by producers before queueing, read by operations

enum Behaviour { PLAIN, QUEUES, STOPS };
struct Object;
struct Op : public icl_core::thread::ActiveOperation
{
  int id; Object* o; int what; long value;
  Op(int id, Object* o, int what) : id(id), o(o), what(what), value(1000 + id) { }
  virtual ~Op() { sched::Quiet q; MC_CHECK(++gh.op[id].deleted == 1, "deleted-twice", "operation %d deleted twice", id); }
  virtual void invoke();
};

struct Object : public icl_core::thread::ActiveObject
{
  Object() : icl_core::thread::ActiveObject("active") { }
  virtual void onThreadStart() { sched::Quiet q; ++gh.started; gh.worker = sched::self(); }
  virtual void onThreadStop() { sched::Quiet q; ++gh.stopped; }
  // as a subclass's asynchronous method does
  int call(int producer, int what = PLAIN)
  {
    Op* op; int id;
    { sched::Quiet q; id = gh.n++; gh.op[id].producer = producer; gh.op[id].made = 1; gh.op[id].after_stop = gh.stop_begun; }
    op = new Op(id, this, what);
    sched::trace("queue operation %d", id);
    queue(op);
    { sched::Quiet q; gh.op[id].before_stop = !gh.stop_begun; }
    return id;
  }
  void halt() { { sched::Quiet q; gh.stop_begun = true; } sched::trace("stop"); stop(); { sched::Quiet q; gh.stop_done = true; } }
};

void Op::invoke()
{
  {
    sched::Quiet q;
    sched::trace("operation %d", id);
    MC_CHECK(++gh.active == 1, "parallel", "two operations run at the same time");
    MC_CHECK(++gh.op[id].invoked == 1, "twice", "operation %d executed twice", id);
    MC_CHECK(!gh.op[id].deleted, "after-delete", "operation %d executed after its deletion", id);
    MC_CHECK(sched::self() == gh.worker && sched::self() != 0, "thread", "operation %d executed by thread %d", id, sched::self());
    MC_CHECK(gh.started > gh.stopped, "outside", "operation %d executed outside of onThreadStart/onThreadStop", id);
    gh.order[gh.norder++] = id;
  }
  MC_CHECK(value == 1000 + id, "data", "operation %d lost its data", id);
  MC_CHECK(o->threadSelf(), "thread", "threadSelf() is false inside an operation");
  if (what == QUEUES) o->call(9, PLAIN);
  if (what == STOPS) o->halt();
  sched::point("inside the operation");
  { sched::Quiet q; --gh.active; }
  sem_post(&done);
}

void orderCheck(bool all)
{
  sched::Quiet q;
  for (int p = 0; p < 10; ++p)
  {
    // executed operations of one producer form a prefix, in order (a producer numbers its operations upwards)
    int last = -1; bool gap = false;
    for (int i = 0; i < gh.norder; ++i) if (gh.op[gh.order[i]].producer == p)
    {
      MC_CHECK(gh.order[i] > last, "order", "operation %d executed after operation %d of the same caller", gh.order[i], last);
      last = gh.order[i];
    }
    for (int i = 0; i < gh.n; ++i) if (gh.op[i].producer == p)
    {
      if (gap && gh.op[i].invoked) mc::fail("order", "operation %d executed although an earlier one of the same caller was dropped", i);
      gap |= !gh.op[i].invoked;
    }
  }
  for (int i = 0; i < gh.n; ++i)
  {
    if (all) MC_CHECK(gh.op[i].invoked == 1, "lost", "operation %d was never executed", i);
    MC_CHECK(gh.op[i].deleted == 1, "leak", "operation %d was never deleted (executed: %d)", i, gh.op[i].invoked);
  }
}

void begin() { gh.clear(); sem_init(&done, 0, 0); }
void end(Object* o, size_t blocks)
{
  delete o;
  MC_CHECK(sched::alive() == 0, "left-running", "a thread still runs after its object was destroyed");
  MC_CHECK(sched::unjoined() == 0, "leak", "%d threads were never joined", sched::unjoined());
  MC_CHECK(sched::liveBlocks() == blocks, "leak", "%zu blocks of memory were not released", sched::liveBlocks() - blocks);
  MC_CHECK(gh.started == gh.stopped, "hooks", "onThreadStart was called %d times, onThreadStop %d times", gh.started, gh.stopped);
}
uint64_t orderHash() { sched::Quiet q; uint64_t h = 7; for (int i = 0; i < gh.norder; ++i) h = mc::mix(h, uint64_t(gh.op[gh.order[i]].producer * 16 + gh.order[i])); return mc::mix(h, uint64_t(gh.n)); }

// producers queue while the object runs and nobody stops it: everything is executed
int g_each;
void producers()
{
  begin();
  size_t blocks = sched::liveBlocks();
  int np = mc::choose(2, "producers") + 1, nops = mc::choose(g_each, "operations") + 1, what = mc::choose(2, "first operation");
  Object* o = new Object;
  MC_CHECK(o->start(), "start", "start returned false");
  {
    th::Threads t;
    for (int p = 0; p < np; ++p) t.start([=] { for (int i = 0; i < nops; ++i) o->call(p, i == 0 ? what : PLAIN); });
    int total = np * (nops + (what == QUEUES));
    for (int i = 0; i < total; ++i) sem_wait(&done);      // an operation that is never executed: deadlock
    t.join();
  }
  MC_CHECK(o->execute() && o->running(), "state", "the object does not run any more");
  o->halt();
  o->join();
  MC_CHECK(sem_trywait(&done) != 0, "twice", "more operations executed than queued");
  orderCheck(true);
  end(o, blocks);
  mc::state(mc::mix(orderHash(), uint64_t(np * 64 + nops * 8 + what)));
  mc::outcome(mc::format("%d executed", gh.norder));
}

// a stop while operations are queued
void stopping()
{
  begin();
  size_t blocks = sched::liveBlocks();
  int how = mc::choose(3, "stop by");            // the controller, another thread, an operation
  int nops = mc::choose(g_each, "operations") + 1;
  Object* o = new Object;
  MC_CHECK(o->start(), "start", "start returned false");
  {
    th::Threads t;
    t.start([=] { for (int i = 0; i < nops; ++i) o->call(0, PLAIN); });
    if (how == 0) o->halt();
    if (how == 1) t.start([=] { o->halt(); });
    if (how == 2) o->call(1, STOPS);
    o->join();
    int ran; { sched::Quiet q; ran = gh.norder; }
    t.join();
    { sched::Quiet q; MC_CHECK(gh.norder == ran && gh.active == 0, "after-join", "an operation was executed after the object had been joined"); }
  }
  MC_CHECK(!o->running(), "state", "running() is true after the object was joined");
  int late = o->call(2, PLAIN);                  // handed to an object that does not run
  MC_CHECK(!gh.op[late].invoked && gh.op[late].deleted == 1, "late", "an operation queued to a stopped object was not discarded");
  if (how == 2) orderCheck(false); else orderCheck(false);
  end(o, blocks);
  mc::state(mc::mix(orderHash(), uint64_t(how * 8 + nops)));
  mc::outcome(mc::format("%d of %d executed", gh.norder, gh.n));
}

// run, stop, run again; what was dropped stays dropped and what is queued then is executed
void again()
{
  begin();
  size_t blocks = sched::liveBlocks();
  int early = mc::choose(2, "queue before the start"), first = mc::choose(3, "operations of the first run"), waited = mc::choose(2, "wait for them");
  Object* o = new Object;
  if (early) { int id = o->call(3, PLAIN); MC_CHECK(gh.op[id].deleted == 1 && !gh.op[id].invoked, "early", "an operation queued to an object that does not run was not discarded"); }
  MC_CHECK(o->start(), "start", "start returned false");
  for (int i = 0; i < first; ++i) o->call(0, PLAIN);
  if (waited) for (int i = 0; i < first; ++i) sem_wait(&done);
  o->halt();
  o->join();
  int ran; { sched::Quiet q; ran = gh.norder; gh.stop_begun = gh.stop_done = false; }
  if (waited) MC_CHECK(ran == first, "twice", "%d of %d operations executed", ran, first);
  while (sem_trywait(&done) == 0) { }
  MC_CHECK(o->start(), "start", "the second start returned false");
  int a = o->call(1, PLAIN), b = o->call(1, PLAIN);
  sem_wait(&done); sem_wait(&done);
  { sched::Quiet q; MC_CHECK(gh.op[a].invoked && gh.op[b].invoked && gh.norder == ran + 2, "stale", "an operation of the first run was executed in the second"); }
  o->halt();
  o->join();
  orderCheck(false);
  end(o, blocks);
  mc::state(mc::mix(orderHash(), uint64_t(early * 8 + first * 2 + waited)));
}

} // namespace

int main(int argc, char** argv)
{
  bool deep = false; for (int i = 1; i < argc; ++i) deep |= std::string(argv[i]) == "--thorough";
  icl_core::thread::IclCoreThread::instance().setActive(false);
  g_each = deep ? 3 : 2;
  std::vector<int> b2 = deep ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1, 2};
  sched::Options o;
  return mc::run(argc, argv, {
    sched::scenario("producers", producers, b2, o),
    sched::scenario("stopping", stopping, b2, o),
    sched::scenario("started again", again, b2, o),
  });
}
