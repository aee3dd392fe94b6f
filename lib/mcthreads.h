// Controlled scheduler: runs the threads of an execution as fibers of one process, decides every
// interleaving through mc::choose(), and drives a virtual clock.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include "mc.h"
#include <cstdint>
#include <functional>
#include <string>

namespace sched {

struct Options
{
  bool interrupts = false;             // blocked semaphore waits may be interrupted by a signal (costs one deviation)
  bool timeouts = true;                // deadlines may pass while other threads could run (costs one deviation)
  bool create_fails = false;           // pthread_create may fail (costs one deviation)
  int64_t start_ns = 1000000000000000000ll;   // initial wall clock (2001-09-09)
  int max_points = 200000;             // more scheduling points than this: livelock
};

// Runs body as thread 0 under the scheduler; returns when it has returned (other threads may still exist).
void run(const std::function<void()>& body, const Options& o = Options());
// A forked scenario whose pass is repeated until no new racing location is found.
mc::Scenario scenario(const std::string& name, std::function<void()> body, std::vector<int> bounds, Options o = Options());

int self();                            // index of the running thread
int threads();                         // threads created so far (including thread 0)
int alive();                           // threads not finished, other than the caller
bool finished(int thread);
bool blocked(int thread);              // currently waiting for something
int unjoined();                        // finished or running threads that were neither joined nor detached
int64_t now();                         // virtual clock, nanoseconds
void elapse(int64_t ns);               // the calling thread computes for this long
void point(const char* label);         // explicit scheduling point
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
int preemptions();                     // deviations used so far
size_t liveBlocks();                   // heap blocks allocated since run() began and not released
int openFds();                         // modelled descriptors still open
bool holds(const void* mutex);         // is the pthread mutex at this address held by anybody

// Accesses to [p,p+n) must be ordered by synchronisation (happens-before) in every execution.
void watch(const void* p, size_t n, const char* what);
void unwatch(const void* p);

// No scheduling points and no tracking while one of these exists in the running thread.
struct Quiet { Quiet(); ~Quiet(); };

} // namespace sched
#endif
