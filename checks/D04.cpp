// Compatibility names of the thread library: the same histories under the old and under the current names, under the controlled
// scheduler with a virtual clock (so that a duration is part of what is compared).
#include "threads.h"
#include "deprecated.h"
#include <memory>
#include <algorithm>
#include <sys/time.h>
#include "icl_core/BaseTypes.h"
#include "icl_core/TimeStamp.h"
#include "icl_core/TimeSpan.h"
#include "icl_core/os.h"
#include "icl_core_thread/Common.h"
#include "icl_core_thread/Mutex.h"
#include "icl_core_thread/RWLock.h"
#include "icl_core_thread/Sem.h"
#include "icl_core_thread/ScopedMutexLock.h"
#include "icl_core_thread/ScopedRWLock.h"
#include "icl_core_thread/Thread.h"
#include "icl_core_thread/PeriodicThread.h"
#include "icl_core_thread/ActiveObject.h"
#include "icl_core_thread/ActiveOperation.h"
#include "icl_core_thread/Logging.h"
#include "icl_core_thread/tMutex.h"
#include "icl_core_thread/tPeriodicThread.h"
#include "icl_core_thread/tRWLock.h"
#include "icl_core_thread/tScopedMutexLock.h"
#include "icl_core_thread/tScopedRWLock.h"
#include "icl_core_thread/tSemaphore.h"
#include "icl_core_thread/tThread.h"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using std::string; using std::vector;
using icl_core::TimeSpan; using icl_core::TimeStamp;
namespace tt = icl_core::thread;
static const int64_t MS = 1000000;
struct Script { vector<int> made; size_t at = 0; bool again = false; int choose(int n, const char* l) { if (again) return at < made.size() ? made[at++] : 0; made.push_back(mc::choose(n, l)); return made.back(); } };
static int64_t g_start;
struct Out
{
  vector<string> v; template <typename T> Out& operator<<(const T& t) { sched::Quiet q; v.push_back(dep::repr(t)); return *this; }
  string text() const { string r; for (auto& s : v) r += s + "\n"; return r; }
};
static string at() { sched::Quiet q; return mc::format("+%lld us", (long long)((sched::now() - g_start) / 1000)); }
static TimeStamp stamp(int64_t ns) { int64_t t = sched::now() + ns; return TimeStamp(t / 1000000000, uint32_t(t % 1000000000)); }
static TimeSpan span(int64_t ns) { return TimeSpan(ns / 1000000000, int32_t(ns % 1000000000)); }
static string rel(const TimeStamp& t) { return std::to_string((long long)((int64_t(t.tsSec()) * 1000000000 + t.tsNSec() - g_start) / 1000)); }

#define N(current, old) current
namespace current {
#include "D04_body.inc"
}
#undef N
#define N(current, old) old
namespace compat {
#include "D04_body.inc"
}
#undef N
typedef string (*Body)(Script&);
static void both(Body a, Body b, const char* key)
{
  Script in; string x, y; tt::IclCoreThread::instance().setActive(false);
  g_start = sched::now(); x = a(in) + at(); in.again = true; in.at = 0;
  g_start = sched::now(); y = b(in) + at();
  if (x != y)
  {
    std::istringstream p(x), q(y); string l, k; int n = 0; while (std::getline(p, l), std::getline(q, k), p && q && l == k) ++n;
    mc::fail(key, "observation %d: the compatibility name yields %.300s, the current name %.300s", n, k.c_str(), l.c_str());
  }
  sched::trace("%s", x.c_str()); mc::transition(uint64_t(std::count(x.begin(), x.end(), '\n'))); mc::state(mc::hashStr(x));
}
#define BOTH(f) static void f() { both(current::f, compat::f, #f); }
namespace run { BOTH(mutexes) BOTH(rwlocks) BOTH(semaphores) BOTH(timeouts) BOTH(threads) BOTH(periodic) BOTH(active) }
static void types()
{
  SAME_TYPE(tt::Mutex, tt::tMutex); SAME_TYPE(tt::RWLock, tt::tRWLock); SAME_TYPE(tt::Semaphore, tt::tSemaphore); SAME_TYPE(tt::ScopedMutexLock, tt::tScopedMutexLock); SAME_TYPE(tt::ScopedRWLock, tt::tScopedRWLock);
  SAME_TYPE(tt::Thread, tt::tThread); SAME_TYPE(tt::PeriodicThread, tt::tPeriodicThread);
}
int main(int argc, char** argv)
{
  vector<int> b{0};
  return mc::run(argc, argv, {
    sched::scenario("mutexes", run::mutexes, b), sched::scenario("read-write locks", run::rwlocks, b), sched::scenario("semaphores", run::semaphores, b), sched::scenario("timeouts", run::timeouts, b),
    sched::scenario("threads", run::threads, b), sched::scenario("periodic threads", run::periodic, b), sched::scenario("active objects", run::active, b), mc::Scenario("type names", types),
  });
}
