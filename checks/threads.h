// Helpers shared by the checks that run under the controlled scheduler.
#ifndef VERIF_CHECKS_THREADS_H
#define VERIF_CHECKS_THREADS_H
#include "mcthreads.h"
#include <pthread.h>
#include <functional>
#include <vector>

namespace th {

struct Threads
{
  std::vector<pthread_t> ids;
  static void* thunk(void* p) { std::function<void()>* f = static_cast<std::function<void()>*>(p); (*f)(); sched::Quiet q; delete f; return nullptr; }
  void start(std::function<void()> f)
  {
    pthread_t t;
    std::function<void()>* p;
    { sched::Quiet q; p = new std::function<void()>(std::move(f)); }
    if (pthread_create(&t, nullptr, thunk, p) != 0) mc::fail("harness", "no thread");
    sched::Quiet q;
    ids.push_back(t);
  }
  void join() { for (size_t i = 0; i < ids.size(); ++i) pthread_join(ids[i], nullptr); ids.clear(); }
};

// Ghost record of who may hold and who certainly holds a lock.
struct LockGhost
{
  static const int N = 12;
  int sure_w[N], sure_r[N];           // between a successful acquisition's return and the release call (nesting)
  bool maybe_w[N], maybe_r[N];        // between the acquisition call and the release's return
  bool seen_w[N], seen_r[N];          // another thread was "maybe" inside at some time during my call
  void clear() { for (int i = 0; i < N; ++i) { sure_w[i] = sure_r[i] = 0; maybe_w[i] = maybe_r[i] = seen_w[i] = seen_r[i] = false; } }
  void spread(int t, bool write)      // t may be inside from now on: visible to everybody who is in a call
  {
    for (int i = 0; i < N; ++i) if (i != t) { if (write) seen_w[i] = true; else seen_r[i] = true; }
  }
  void call(int t, bool write)        // before any acquisition
  {
    sched::Quiet q;
    seen_w[t] = seen_r[t] = false;
    for (int i = 0; i < N; ++i) if (i != t) { seen_w[t] |= maybe_w[i] || sure_w[i] > 0; seen_r[t] |= maybe_r[i] || sure_r[i] > 0; }
    if (write) maybe_w[t] = true; else maybe_r[t] = true;
    spread(t, write);
  }
  void acquired(int t, bool write, const char* how)
  {
    sched::Quiet q;
    for (int i = 0; i < N; ++i)
      if (i != t)
      {
        if (sure_w[i]) mc::fail("mutual-exclusion", "thread %d got the lock (%s) while thread %d holds it", t, how, i);
        if (write && sure_r[i]) mc::fail("mutual-exclusion", "thread %d got the write lock (%s) while thread %d reads", t, how, i);
      }
    if (write) ++sure_w[t]; else ++sure_r[t];
  }
  void refused(int t, bool write)     // the acquisition returned false
  {
    sched::Quiet q;
    if (write && sure_w[t] == 0) maybe_w[t] = false;
    if (!write && sure_r[t] == 0) maybe_r[t] = false;
  }
  void releasing(int t, bool write) { sched::Quiet q; if (write) --sure_w[t]; else --sure_r[t]; }
  void released(int t, bool write)
  {
    sched::Quiet q;
    if (write && sure_w[t] == 0) maybe_w[t] = false;
    if (!write && sure_r[t] == 0) maybe_r[t] = false;
  }
  bool otherMayHold(int t, bool write) const { sched::Quiet q; return seen_w[t] || (write && seen_r[t]); }
};

} // namespace th
#endif
