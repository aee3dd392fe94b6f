// The controlled scheduler against programs whose behaviours are known.
#include "mcthreads.h"
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <atomic>
#include <list>
#include <memory>
#include <cstring>

static int x, y;
static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER, m2 = PTHREAD_MUTEX_INITIALIZER;
static sem_t sem;
static void* inc(void*) { int t = x; x = t + 1; return nullptr; }
static void* incLocked(void*) { pthread_mutex_lock(&m); int t = x; x = t + 1; pthread_mutex_unlock(&m); return nullptr; }
static void* ab(void*) { pthread_mutex_lock(&m); pthread_mutex_lock(&m2); pthread_mutex_unlock(&m2); pthread_mutex_unlock(&m); return nullptr; }
static void* ba(void*) { pthread_mutex_lock(&m2); pthread_mutex_lock(&m); pthread_mutex_unlock(&m); pthread_mutex_unlock(&m2); return nullptr; }
static void two(void* (*f)(void*), void* (*g)(void*))
{
  pthread_t a, b; pthread_create(&a, nullptr, f, nullptr); pthread_create(&b, nullptr, g, nullptr);
  pthread_join(a, nullptr); pthread_join(b, nullptr);
}
static std::atomic<int> ax, ay; static int r1, r2;
static void* sb1(void*) { ax = 1; r1 = ay; return nullptr; }
static void* sb2(void*) { ay = 1; r2 = ax; return nullptr; }
static std::atomic<bool> flag; static int data_;
static void* spin(void*) { while (!flag) { } r1 = data_; return nullptr; }
static void* setter(void*) { data_ = 7; flag = true; return nullptr; }
static volatile bool vflag;
static void* vspin(void*) { while (!vflag) usleep(100); return nullptr; }
static void* vset(void*) { vflag = true; return nullptr; }
static int pflag; static void* pspin(void*) { while (!pflag) asm volatile("" ::: "memory"); return nullptr; }
static void* pset(void*) { usleep(5); pflag = 1; return nullptr; }
static std::list<int>* lst;
static void* pusher(void*) { lst->push_back(1); return nullptr; }
static int* cell;
static void* user(void*) { *cell = 1; return nullptr; }
static void* freer(void*) { delete cell; return nullptr; }
struct Guard { ~Guard() { x = 9; } };
static void* sleeper(void*) { Guard g; for (;;) sleep(1); return nullptr; }

int main(int argc, char** argv)
{
  std::vector<mc::Scenario> s;
  auto add = [&](const char* n, std::function<void()> f, std::vector<int> b, sched::Options o = sched::Options()) { s.push_back(sched::scenario(n, f, b, o)); };
  add("counter", [] { x = 0; two(inc, inc); mc::outcome(mc::format("x=%d", x)); if (mc::thorough()) MC_CHECK(x == 2, "lost", "lost update"); }, {0, 1, 2});
  add("locked counter", [] { x = 0; sched::watch(&x, 4, "x"); two(incLocked, incLocked); mc::outcome(mc::format("x=%d", x)); MC_CHECK(x == 2, "lost", "lost update"); }, {0, 1, 2});
  add("store buffering", [] { ax = ay = 0; two(sb1, sb2); mc::outcome(mc::format("%d%d", r1, r2)); }, {0, 1, 2});
  add("spin", [] { flag = false; data_ = 0; r1 = 0; two(spin, setter); MC_CHECK(r1 == 7, "order", "%d", r1); }, {0, 1, 2});
  add("sleep spin", [] { vflag = false; two(vspin, vset); }, {0, 1, 2});
  add("plain spin", [] { pflag = 0; two(pspin, pset); }, {0, 1});
  add("cancel", [] { x = 0; pthread_t a; pthread_create(&a, nullptr, sleeper, nullptr); pthread_cancel(a); pthread_join(a, nullptr); mc::outcome(mc::format("%d", x)); MC_CHECK(x == 9 || mc::bound() >= 0, "unwind", "no"); }, {0, 1});
  add("timed", [] { sem_init(&sem, 0, 0); timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 2; int64_t c = sched::now(); int r = sem_timedwait(&sem, &t); MC_CHECK(r == -1 && errno == ETIMEDOUT && sched::now() - c == 2000000000, "time", "x"); }, {0});
  add("string", [] { std::string q; for (int i = 0; i < 100; ++i) q += "abc"; std::unique_ptr<std::list<std::string>> l(new std::list<std::string>); l->push_back(q); l->push_back(q); l.reset(); MC_CHECK(q.size() == 300, "s", "s"); }, {0});
  if (getenv("BAD"))
  {
    add("bad deadlock", [] { two(ab, ba); }, {0, 1});
    add("bad list", [] { lst = new std::list<int>; two(pusher, pusher); MC_CHECK(lst->size() == 2 && std::distance(lst->begin(), lst->end()) == 2, "broken", "list"); }, {0, 1});
    add("bad free", [] { cell = new int(3); two(user, freer); }, {0, 1});
    add("bad watch", [] { x = 0; sched::watch(&x, 4, "x"); two(inc, incLocked); }, {0});
    add("bad memcpy", [] { static char* b; b = new char[10]; volatile size_t n = 11; std::string z(20, 'x'); memcpy(b, z.data(), n); }, {0});
  }
  return mc::run(argc, argv, s);
}
