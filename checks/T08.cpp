// T08: icl_core::dispatch::PeriodicDispatchThread calls every added operation once per period, in order.
#include "threads.h"
#include "icl_core_dispatch/PeriodicDispatchThread.h"
#include "icl_core_dispatch/CallbackOperation.h"
#include "icl_core_dispatch/Operation.h"
#include "icl_core_thread/Logging.h"
#include "icl_core/TimeSpan.h"
#include <boost/bind.hpp>

using icl_core::TimeSpan;
using icl_core::dispatch::PeriodicDispatchThread;

namespace {

const int64_t MS = 1000000, PERIOD = 10 * MS;
const int MAXOPS = 8, MAXCALLS = 256;
struct Ghost
{
  int adding, added;                 // operations whose addition has begun / returned
  int next, pass_min, passes;        // position within the current pass
  int ncalls, active, worker, deleted;
  int64_t started, last_pass; int last_len;
  bool joined, stop_begun, in_pass;
} gh;


struct Plain : public icl_core::dispatch::Operation
{
  int id; int64_t work; PeriodicDispatchThread* d; Plain* more; int act;
  Plain(int id, int64_t work) : id(id), work(work), d(0), more(0), act(0) { }
  virtual ~Plain() { sched::Quiet q; ++gh.deleted; }
  virtual void execute();
};
void add(PeriodicDispatchThread* d, icl_core::dispatch::Operation* op)
{
  { sched::Quiet q; ++gh.adding; sched::trace("add operation %d", gh.adding - 1); }
  d->addOperation(op);
  { sched::Quiet q; ++gh.added; }
}

void called(int id, int64_t work)
{
  {
    sched::Quiet q;
    sched::trace("operation %d", id);
    MC_CHECK(++gh.ncalls < MAXCALLS, "endless", "more than %d calls", MAXCALLS);
    MC_CHECK(!gh.joined, "after-stop", "operation %d called after the dispatcher had been stopped and joined", id);
    MC_CHECK(++gh.active == 1, "parallel", "two operations run at the same time");
    MC_CHECK(sched::self() != 0 && (gh.worker == -1 || gh.worker == sched::self()), "thread", "operation %d called by thread %d", id, sched::self());
    gh.worker = sched::self();
    if (id == 0)
    {
      // a new pass: the previous one has called everybody who was there when it began
      MC_CHECK(gh.next >= gh.pass_min, "skipped", "a pass ended after %d of %d operations", gh.next, gh.pass_min);
      gh.next = 0; gh.pass_min = gh.added; ++gh.passes;
      int64_t t = sched::now();
      int64_t limit = (t - gh.started) / PERIOD + 1;
      MC_CHECK(gh.passes <= limit, "early", "%d passes after %lld ns with a period of %lld ns", gh.passes, (long long)(t - gh.started), (long long)PERIOD);
      gh.last_pass = t;
    }
    MC_CHECK(id == gh.next, "order", "operation %d called when it was the turn of operation %d", id, gh.next);
    MC_CHECK(id < gh.adding, "unknown", "operation %d called before it was added", id);
    ++gh.next;
  }
  if (work) sched::elapse(work);
  sched::point("inside the operation");
  { sched::Quiet q; --gh.active; }
}
void Plain::execute()
{
  called(id, work);
  if (act == 1 && more) { Plain* m = more; more = 0; add(d, m); }
  if (act == 2) { { sched::Quiet q; gh.stop_begun = true; } d->stop(); }
}
void callback(int id, long* data) { MC_CHECK(*data == 77 + id, "data", "callback %d got the data of another one", id); called(id, 0); }

void begin() { gh = Ghost(); gh.worker = -1; }

int g_ops;
void dispatch()
{
  begin();
  size_t blocks = sched::liveBlocks();
  int n = mc::choose(g_ops, "operations");             // added before the start
  int kind = mc::choose(2, "kind");                    // plain operations, callbacks
  int late = mc::choose(2, "added while running");
  int work = n && kind == 0 ? mc::choose(3, "work") : 0;
  int act = n && kind == 0 ? mc::choose(3, "first operation") : 0;      // nothing, adds another one, stops
  int how = mc::choose(3, "end");                      // stop and join, stop and wait, destructor
  PeriodicDispatchThread* d = new PeriodicDispatchThread("dispatch", TimeSpan(0, int32_t(PERIOD)));
  long data[MAXOPS]; for (int i = 0; i < MAXOPS; ++i) data[i] = 77 + i;
  std::vector<icl_core::dispatch::Operation*> ops;
  {
    sched::Quiet q; ops.reserve(MAXOPS);
  }
  int made = 0;
  for (int i = 0; i < n; ++i)
  {
    icl_core::dispatch::Operation* op;
    if (kind == 0) { Plain* p = new Plain(i, work == 0 ? 0 : work == 1 ? 4 * MS : 13 * MS); p->d = d; if (i == 0) p->act = act; op = p; ++made; }
    else op = new icl_core::dispatch::CallbackOperation(boost::bind(&callback, i, &data[i]));
    ops.push_back(op);
    add(d, op);
  }
  if (act == 1)
  {
    Plain* p = new Plain(n, 0); ++made; ops.push_back(p);
    static_cast<Plain*>(ops[0])->more = p;
  }
  if (act == 1 && late) mc::prune();                   // the numbering would depend on the schedule
  { sched::Quiet q; gh.started = sched::now(); }
  MC_CHECK(d->start(), "start", "start returned false");
  if (late)
  {
    usleep(12000);
    icl_core::dispatch::Operation* op;
    if (kind == 0) { Plain* p = new Plain(n, 0); p->d = d; op = p; ++made; }
    else op = new icl_core::dispatch::CallbackOperation(boost::bind(&callback, n, &data[n]));
    ops.push_back(op);
    add(d, op);
  }
  usleep(24000);
  int total = n + late;
  if (act != 2 && total > 0 && sched::preemptions() == 0)
  {
    sched::Quiet q;
    int64_t elapsed = sched::now() - gh.started;
    int64_t need = (work == 0 || kind ? 0 : work == 1 ? 4 * MS : 13 * MS) * n, one = need > PERIOD ? need : PERIOD;
    int want = int(elapsed / one);                     // passes that must have begun (rounded down)
    if (n == 0) want = int((elapsed - 12 * MS) / PERIOD) - 1;
    MC_CHECK(gh.passes >= want, "missed", "%d passes after %lld ns", gh.passes, (long long)elapsed);
  }
  { sched::Quiet q; gh.stop_begun = true; }
  if (how != 2)
  {
    d->stop();
    if (how == 0) d->join(); else MC_CHECK(d->wait(), "wait", "wait returned false");
    { sched::Quiet q; gh.joined = true; MC_CHECK(gh.active == 0, "left-running", "an operation still runs after the dispatcher was stopped"); }
    usleep(15000);
  }
  sched::trace("delete");
  delete d;
  {
    sched::Quiet q;
    MC_CHECK(gh.active == 0 && sched::alive() == 0 && sched::unjoined() == 0, "left-running", "the dispatcher still runs after its destruction");
    MC_CHECK(gh.passes == 0 || gh.next >= gh.pass_min, "skipped", "the last pass ended after %d of %d operations", gh.next, gh.pass_min);
    MC_CHECK(gh.deleted == 0, "deleted", "the dispatcher deleted an operation");
  }
  for (size_t i = 0; i < ops.size(); ++i) delete ops[i];
  MC_CHECK(gh.deleted == made, "deleted", "%d operations deleted, %d made", gh.deleted, made);
  { sched::Quiet q; std::vector<icl_core::dispatch::Operation*>().swap(ops); }
  MC_CHECK(sched::liveBlocks() == blocks, "leak", "%zu blocks of memory were not released", sched::liveBlocks() - blocks);
  uint64_t h = uint64_t(((((n * 2 + kind) * 2 + late) * 3 + work) * 3 + act) * 3 + how);
  mc::state(mc::mix(h, uint64_t(gh.ncalls)));
  mc::outcome(mc::format("%d passes", gh.passes));
}

// stopped and started again
void again()
{
  begin();
  PeriodicDispatchThread* d = new PeriodicDispatchThread("dispatch", TimeSpan(0, int32_t(PERIOD)));
  Plain a(0, 0), b(1, 0);
  add(d, &a); add(d, &b);
  int pause = mc::choose(2, "running time") * 15000;
  for (int i = 0; i < 2; ++i)
  {
    { sched::Quiet q; gh.started = sched::now(); gh.passes = 0; gh.worker = -1; gh.joined = false; }
    MC_CHECK(d->start(), "start", "start returned false");
    usleep(useconds_t(pause));
    d->stop(); d->join();
    sched::Quiet q; gh.joined = true;
    if (pause && sched::preemptions() == 0) MC_CHECK(gh.passes == 2, "missed", "%d passes in 15 ms", gh.passes);
  }
  delete d;
  mc::state(uint64_t(gh.ncalls * 2 + (pause != 0)));
}

} // namespace

int main(int argc, char** argv)
{
  bool deep = false; for (int i = 1; i < argc; ++i) deep |= std::string(argv[i]) == "--thorough";
  icl_core::thread::IclCoreThread::instance().setActive(false);
  g_ops = deep ? 4 : 3;
  std::vector<int> b2 = deep ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1, 2};
  sched::Options o;
  return mc::run(argc, argv, {
    sched::scenario("dispatch", dispatch, b2, o),
    sched::scenario("started again", again, deep ? std::vector<int>{0, 1, 2, 3, 4} : std::vector<int>{0, 1, 2, 3}, o),
  });
}
