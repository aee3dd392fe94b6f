// Binds the scheduler's models of the POSIX calls to the C library: runs every script of calls to a depth and
// writes what each call returned. Compiled twice, against the models and (REAL_LIBC) against the C library; the
// two lists have to be equal (tools/setup.py, tools/conform.sh).
#ifndef REAL_LIBC
#include "mcthreads.h"
#endif
#include <pthread.h>
#include <semaphore.h>
#include <sys/timerfd.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

static const long SHORT = 2000000;      // a deadline that passes, ns
static timespec in(clockid_t c, long ns)
{
  timespec t; clock_gettime(c, &t);
  long long v = (long long)t.tv_sec * 1000000000ll + t.tv_nsec + ns;
  t.tv_sec = v / 1000000000ll; t.tv_nsec = v % 1000000000ll; return t;
}
static timespec bad() { timespec t = in(CLOCK_REALTIME, 0); t.tv_nsec = 1000000000; return t; }

// ---------------------------------------------------------------- a second thread that does what it is told
static sem_t go, done; static std::function<void()>* job; static bool quit;
static void* helper(void*) { for (;;) { sem_wait(&go); if (quit) return nullptr; (*job)(); sem_post(&done); } }
static void as(int actor, std::function<void()> f)
{
  if (actor == 0) { f(); return; }
  job = &f; sem_post(&go); sem_wait(&done);
}
static std::string err(int r) { switch (r) { case 0: return "0"; case EBUSY: return "BUSY"; case EPERM: return "PERM"; case EDEADLK: return "DEADLK"; case EINVAL: return "INVAL";
  case ETIMEDOUT: return "TIMEDOUT"; case EAGAIN: return "AGAIN"; case EINTR: return "INTR"; case EBADF: return "BADF"; case ESRCH: return "SRCH"; } return std::to_string(r); }
static std::string timed(clockid_t c, std::function<int(const timespec*)> f)
{
  timespec a = in(CLOCK_MONOTONIC, 0), t = in(c, SHORT);
  int r = f(&t); timespec b = in(CLOCK_MONOTONIC, 0);
  long d = (b.tv_sec - a.tv_sec) * 1000000000l + b.tv_nsec - a.tv_nsec;
  return err(r) + (r == ETIMEDOUT && d < SHORT ? "!early" : "");
}

struct Family { const char* name; int ops, depth; std::function<void()> begin; std::function<std::string(int actor, int op)> step; std::function<void()> end; bool two; };

static pthread_mutex_t mx; static pthread_rwlock_t rw; static sem_t sm; static int held[2], reads[2];
static std::string mutexStep(int a, int op, bool normal)
{
  std::string s; timespec t; int r;
  switch (op)
  {
    case 0: r = pthread_mutex_trylock(&mx); if (!r) ++held[a]; return "try=" + err(r);
    case 1: r = pthread_mutex_trylock(&mx); if (r) return "lock?" + err(r); pthread_mutex_unlock(&mx); r = pthread_mutex_lock(&mx); if (!r) ++held[a]; return "lock=" + err(r);
    case 2: if (normal && !held[a]) return "-"; r = pthread_mutex_unlock(&mx); if (!r) --held[a]; return "unlock=" + err(r);
    case 3: t = in(CLOCK_REALTIME, -1000000000); r = pthread_mutex_timedlock(&mx, &t); if (!r) ++held[a]; return "past=" + err(r);
    case 4: t = bad(); r = pthread_mutex_timedlock(&mx, &t); if (!r) ++held[a]; return "bad=" + err(r);
    default: s = timed(CLOCK_REALTIME, [](const timespec* x) { return pthread_mutex_timedlock(&mx, x); }); if (s == "0") ++held[a]; return "timed=" + s;
  }
}
static void initMutex(int type) { pthread_mutexattr_t at; pthread_mutexattr_init(&at); pthread_mutexattr_settype(&at, type); pthread_mutex_init(&mx, &at); pthread_mutexattr_destroy(&at); held[0] = held[1] = 0; }
static void endMutex() { for (int a = 0; a < 2; ++a) as(a, [a] { while (held[a] > 0) { pthread_mutex_unlock(&mx); --held[a]; } }); pthread_mutex_destroy(&mx); }
static std::string rwStep(int a, int op)
{
  std::string s; timespec t; int r; bool wr = op % 2;
  auto got = [&](int e) { if (!e) { if (wr) ++held[a]; else ++reads[a]; } return err(e); };
  switch (op)
  {
    case 0: return "tryrd=" + got(pthread_rwlock_tryrdlock(&rw));
    case 1: return "trywr=" + got(pthread_rwlock_trywrlock(&rw));
    case 2: t = in(CLOCK_REALTIME, -1000000000); return "pastrd=" + got(pthread_rwlock_timedrdlock(&rw, &t));
    case 3: t = in(CLOCK_REALTIME, -1000000000); return "pastwr=" + got(pthread_rwlock_timedwrlock(&rw, &t));
    case 4: if (!held[a] && !reads[a]) return "-"; r = pthread_rwlock_unlock(&rw); if (held[a]) --held[a]; else --reads[a]; return "unlock=" + err(r);
    case 5: t = bad(); return "badwr=" + got(pthread_rwlock_timedwrlock(&rw, &t));
    case 6: s = timed(CLOCK_REALTIME, [](const timespec* x) { return pthread_rwlock_timedrdlock(&rw, x); }); if (s == "0") ++reads[a]; return "rd=" + s;
    default: s = timed(CLOCK_REALTIME, [](const timespec* x) { return pthread_rwlock_timedwrlock(&rw, x); }); if (s == "0") ++held[a]; return "wr=" + s;
  }
}
static void endRw() { for (int a = 0; a < 2; ++a) as(a, [a] { while (held[a] + reads[a] > 0) { pthread_rwlock_unlock(&rw); if (held[a]) --held[a]; else --reads[a]; } }); pthread_rwlock_destroy(&rw); }
static std::string semStep(int, int op)
{
  int r, v; timespec t; auto e = [](int x) { return x ? err(errno) : std::string("0"); };
  switch (op)
  {
    case 0: return "try=" + e(sem_trywait(&sm));
    case 1: return "post=" + e(sem_post(&sm));
    case 2: r = sem_getvalue(&sm, &v); return "value=" + std::to_string(v) + err(r);
    case 3: t = in(CLOCK_REALTIME, -1000000000); return "past=" + e(sem_timedwait(&sm, &t));
    case 4: t = bad(); return "bad=" + e(sem_timedwait(&sm, &t));
    case 5: sem_getvalue(&sm, &v); if (!v) return "-"; return "wait=" + e(sem_wait(&sm));
    default: return "timed=" + timed(CLOCK_REALTIME, [](const timespec* x) { return sem_timedwait(&sm, x) ? errno : 0; });
  }
}
// ---------------------------------------------------------------- joining
static pthread_t thr; static sem_t fin, gone; static bool joined, released;
static void* waits(void*) { sem_wait(&fin); return (void*)7; }
static std::string joinStep(int, int op)
{
  if (joined) return "-";
  void* ret = nullptr; timespec t; int r = 0; std::string s;
  switch (op)
  {
    case 0: if (released) return "-"; r = pthread_tryjoin_np(thr, &ret); s = "try="; break;
    case 1: if (released) return "-"; t = in(CLOCK_REALTIME, -1000000000); r = pthread_timedjoin_np(thr, &ret, &t); s = "past="; break;
    case 2: if (released) return "-"; s = timed(CLOCK_REALTIME, [](const timespec* x) { return pthread_timedjoin_np(thr, nullptr, x); }); return "timed=" + s;
    case 3: if (!released) { released = true; sem_post(&fin); } return "release";
    case 4: if (!released) return "-"; r = pthread_join(thr, &ret); s = "join="; break;
    default: if (!released) return "-"; t = in(CLOCK_REALTIME, 1000000000l * 5); r = pthread_timedjoin_np(thr, &ret, &t); s = "timedjoin="; break;
  }
  if (!r) joined = true;
  return s + err(r) + (r ? "" : std::to_string((long)ret));
}
// ---------------------------------------------------------------- timer descriptors
static int fd;
static std::string timerStep(int, int op)
{
  itimerspec i; memset(&i, 0, sizeof i); itimerspec o; memset(&o, 9, sizeof o); uint64_t n = 0; int r; timespec t;
  auto set = [&](int flags) { r = timerfd_settime(fd, flags, &i, &o); return std::string("set=") + (r ? err(errno) : "0") + (r ? "" : o.it_value.tv_sec || o.it_value.tv_nsec ? "/armed" : "/idle") + (r ? "" : std::to_string(o.it_interval.tv_sec)); };
  switch (op)
  {
    case 0: i.it_value.tv_sec = 1000; i.it_interval.tv_sec = 1000; return set(0);
    case 1: return set(0);                                               // disarmed
    case 2: i.it_value.tv_nsec = 1000000000; return set(0);              // invalid
    case 3: t = in(CLOCK_MONOTONIC, -SHORT); i.it_value = t; set(TFD_TIMER_ABSTIME); r = read(fd, &n, sizeof n); return "past=" + std::to_string(r) + "/" + std::to_string(n);
    case 4: i.it_value.tv_nsec = SHORT; i.it_interval.tv_sec = 500; set(0); r = read(fd, &n, sizeof n); return "read=" + std::to_string(r) + "/" + std::to_string(n);
    case 5: r = timerfd_gettime(fd, &o); return std::string("get=") + err(r) + (o.it_value.tv_sec || o.it_value.tv_nsec ? "/armed" : "/idle") + std::to_string(o.it_interval.tv_sec);
    default: r = read(fd, &n, 4); return std::string("small=") + (r < 0 ? err(errno) : std::to_string(r));
  }
}

static std::vector<Family> families()
{
  auto idle = [] {};
  return {
    { "recursive-mutex", 5, 4, [] { initMutex(PTHREAD_MUTEX_RECURSIVE); }, [](int a, int o) { return mutexStep(a, o, false); }, endMutex, true },
    { "recursive-mutex-timed", 6, 3, [] { initMutex(PTHREAD_MUTEX_RECURSIVE); }, [](int a, int o) { return mutexStep(a, o, false); }, endMutex, true },
    { "checking-mutex", 5, 4, [] { initMutex(PTHREAD_MUTEX_ERRORCHECK); }, [](int a, int o) { return mutexStep(a, o, false); }, endMutex, true },
    { "normal-mutex", 3, 4, [] { initMutex(PTHREAD_MUTEX_NORMAL); }, [](int a, int o) { return mutexStep(a, o, true); }, endMutex, true },
    { "rwlock", 6, 4, [] { pthread_rwlock_init(&rw, nullptr); memset(held, 0, sizeof held); memset(reads, 0, sizeof reads); }, rwStep, endRw, true },
    { "rwlock-timed", 8, 3, [] { pthread_rwlock_init(&rw, nullptr); memset(held, 0, sizeof held); memset(reads, 0, sizeof reads); }, rwStep, endRw, true },
    { "semaphore", 6, 5, [] { sem_init(&sm, 0, 1); }, semStep, [] { sem_destroy(&sm); }, false },
    { "semaphore-timed", 7, 4, [] { sem_init(&sm, 0, 0); }, semStep, [] { sem_destroy(&sm); }, false },
    { "join", 6, 4, [] { sem_init(&fin, 0, 0); joined = released = false; pthread_create(&thr, nullptr, waits, nullptr); }, joinStep,
      [] { if (!released) sem_post(&fin); if (!joined) pthread_join(thr, nullptr); sem_destroy(&fin); }, false },
    { "timer", 7, 3, [] { fd = timerfd_create(CLOCK_MONOTONIC, 0); }, timerStep, [] { close(fd); }, false } };
}
static std::string script(const Family& f, const std::vector<int>& s)
{
  std::string r = std::string(f.name) + ":";
  sem_init(&go, 0, 0); sem_init(&done, 0, 0); quit = false;
  pthread_t h; if (f.two) pthread_create(&h, nullptr, helper, nullptr);
  f.begin();
  for (int c : s) { int a = f.two ? c % 2 : 0, op = f.two ? c / 2 : c; std::string t; as(a, [&] { t = f.step(a, op); }); r += " " + std::to_string(a) + t; }
  f.end();
  if (f.two) { quit = true; sem_post(&go); pthread_join(h, nullptr); }
  return r + "\n";
}
static bool skips(const std::string& r) { return r.find(" 0- ") != r.npos || r.find(" 0-\n") != r.npos || r.find(" 1- ") != r.npos || r.find(" 1-\n") != r.npos; }

#ifdef REAL_LIBC
int main()
{
  for (auto& f : families())
  {
    int n = f.ops * (f.two ? 2 : 1); std::vector<int> s(f.depth, 0);
    for (;;)
    {
      std::string r = script(f, s); if (!skips(r)) fputs(r.c_str(), stdout);
      int i = f.depth - 1; while (i >= 0 && ++s[i] == n) s[i--] = 0;
      if (i < 0) break;
    }
  }
}
#else
int main(int argc, char** argv)
{
  std::vector<mc::Scenario> s;
  const char* path = getenv("VERIF_CONFORM");
  for (auto& f : families())
    s.push_back(sched::scenario(f.name, [f, path] {
      std::vector<int> c; for (int i = 0; i < f.depth; ++i) c.push_back(mc::choose(f.ops * (f.two ? 2 : 1), "call"));
      std::string r = script(f, c);
      sched::Quiet q;
      if (path && !skips(r)) { int o = ::open(path, O_WRONLY | O_APPEND | O_CREAT, 0644); if (::write(o, r.data(), r.size()) < 0) abort(); ::close(o); }
    }, { 0 }));
  return mc::run(argc, argv, s);
}
#endif
