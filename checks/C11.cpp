// C11: singletons are created once, on first use, fully constructed for every caller, and destroyed once.
#include "threads.h"
#include <new>
#include <stdexcept>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <sys/wait.h>
#include "icl_core/Singleton.hpp"
#include "icl_core_thread/SingletonThreadingModels.h"
#include "icl_core_logging/SingletonThreadingModels.h"

namespace {

// ---------------------------------------------------------------- program end
// what is registered with atexit() while an execution is observed
typedef void (*Func)();
Func g_exit[16]; int g_nexit; bool g_observe = false, g_watching = false;

void programEnd() { while (g_nexit > 0) { Func f = g_exit[--g_nexit]; f(); } }

// ---------------------------------------------------------------- the objects
const int WORDS = 4;
struct Log { int began, built, died; const void* obj; const void* words; };
template <int N> struct Rec
{
  static Log log;
  static int fail_first;               // the constructor throws this many times
  static bool points;                  // scheduling points within the constructor
};
template <int N> Log Rec<N>::log;
template <int N> int Rec<N>::fail_first;
template <int N> bool Rec<N>::points;

template <int N> struct Thing
{
  typedef Rec<N> R;
  unsigned word[WORDS];
  Thing()
  {
    { sched::Quiet q; ++R::log.began; if (g_watching) sched::watch(word, sizeof word, "the contents of the singleton"); }
    for (int i = 0; i < WORDS; ++i) { word[i] = 0x1000u * N + 7u + unsigned(i); if (R::points && i == 1) sched::point("constructing"); }
    { sched::Quiet q; if (R::fail_first > 0) { --R::fail_first; if (g_watching) sched::unwatch(word); throw std::runtime_error("constructor"); } }
    sched::Quiet q;
    ++R::log.built; R::log.obj = this; R::log.words = word;
  }
  virtual ~Thing()
  {
    { sched::Quiet q; ++R::log.died; MC_CHECK(R::log.obj == this, "other-destroyed", "another object than the singleton is destroyed"); }
    for (int i = 0; i < WORDS; ++i) MC_CHECK(word[i] == 0x1000u * N + 7u + unsigned(i), "destroyed-contents", "the singleton's contents were not intact at its destruction");
  }
  virtual int number() const { return N; }
};

template <int N> void inspect(Thing<N>& t, const char* when)
{
  for (int i = 0; i < WORDS; ++i)
    MC_CHECK(t.word[i] == 0x1000u * N + 7u + unsigned(i), "not-constructed", "%s: the object is not fully constructed", when);
  MC_CHECK(t.number() == N, "not-constructed", "%s: the object is not of its type", when);
}

// ---------------------------------------------------------------- policies of a user
// reborn after its destruction ("phoenix")
template <class T> struct Phoenix
{
  static int dead;
  static void scheduleDestruction(icl_core::DestructionFuncPtr f) { atexit(f); }
  static void onDeadReference() { sched::Quiet q; ++dead; }
};
template <class T> int Phoenix<T>::dead = 0;
// from a buffer of the user, which is cleared on destruction
template <class T> struct InPlace
{
  static T* create() { return new (buffer()) T; }
  static void destroy(T* t) { if (t) { t->~T(); sched::Quiet q; memset(buffer(), 0xdd, sizeof(T)); } }
  static void* buffer() { static double b[sizeof(T) / sizeof(double) + 1]; return b; }
};

enum Life { DEFAULT, NODESTROY, PHOENIX };

// one kind of singleton, for the harness
template <int N, template <class> class C, template <class> class L, template <class> class M>
struct Kind
{
  typedef Thing<N> T;
  typedef icl_core::Singleton<T, C, L, M> S;
  static T& get() { return S::instance(); }
};

// ---------------------------------------------------------------- racing for the first access
template <class K, int N> void race(int nthreads, bool throwing, bool owned, bool destroyed)
{
  typedef Rec<N> R;
  const void* seen[4][2]; bool thrown[4][2];
  { sched::Quiet q; R::log = Log(); R::fail_first = throwing ? mc::choose(3, "failing constructions") : 0; R::points = true; g_nexit = 0; g_observe = g_watching = true; memset(seen, 0, sizeof seen); memset(thrown, 0, sizeof thrown); }
  int fails = R::fail_first;
  {
    th::Threads t;
    for (int i = 0; i < nthreads; ++i)
      t.start([i, &seen, &thrown] {
        for (int k = 0; k < 2; ++k)
        {
          try
          {
            typename K::T& x = K::get();
            inspect<N>(x, "instance()");
            sched::Quiet q; seen[i][k] = &x;
            sched::trace("instance(): object");
          }
          catch (const std::runtime_error&) { sched::Quiet q; thrown[i][k] = true; sched::trace("instance(): the constructor threw"); }
        }
      });
    t.join();
  }
  sched::Quiet q;
  int nthrown = 0; const void* obj = nullptr;
  for (int i = 0; i < nthreads; ++i)
    for (int k = 0; k < 2; ++k)
    {
      if (thrown[i][k]) { ++nthrown; continue; }
      MC_CHECK(!obj || obj == seen[i][k], "two-objects", "two callers got different objects");
      obj = seen[i][k];
    }
  MC_CHECK(nthrown == fails, "exception", "%d of %d failed constructions were reported to the callers", nthrown, fails);
  MC_CHECK(R::log.built == 1, "created", "the object was created %d times", R::log.built);
  MC_CHECK(R::log.began == 1 + fails, "created", "%d constructions were begun instead of %d", R::log.began, 1 + fails);
  MC_CHECK(R::log.obj == obj, "other-object", "the callers got another object than the created one");
  MC_CHECK(R::log.died == 0, "destroyed-early", "the object was destroyed before the end of the program");
  MC_CHECK(g_nexit == (owned ? 1 : 0), "scheduled", "the destruction was scheduled %d times", g_nexit);
  g_observe = g_watching = false;
  sched::unwatch(R::log.words);
  programEnd();
  int want = owned && destroyed ? 1 : 0;
  MC_CHECK(R::log.died == want, "destroyed", "the object was destroyed %d times at the end of the program instead of %d", R::log.died, want);
  mc::outcome(mc::format("%d failures, %d threads", fails, nthreads));
}

// ---------------------------------------------------------------- one thread, all histories
struct Model { bool alive, dead; int built, died; };

template <class K, int N> struct Driver
{
  static Life life; static bool is_static;
  static Model m;
  static void access()
  {
    typedef Rec<N> R;
    int nexit = g_nexit;
    const void* o = nullptr; int ex = 0;
    int fails = R::fail_first;
    try { typename K::T& x = K::get(); o = &x; if (!is_static || !m.dead) inspect<N>(x, "instance()"); }
    catch (const std::logic_error&) { ex = 1; }
    catch (const std::runtime_error&) { ex = 2; }
    int want = 0;
    if (!m.alive && m.dead && life == DEFAULT) want = 1;
    else if (!m.alive && fails > 0) want = 2;
    MC_CHECK(ex == want, "access", "instance() of a %s object %s", m.alive ? "living" : m.dead ? "destroyed" : "new",
             ex == 1 ? "threw std::logic_error" : ex == 2 ? "failed to construct" : want == 1 ? "did not throw std::logic_error" : "returned though the constructor failed");
    if (ex == 0)
    {
      if (!m.alive) { m.alive = true; m.dead = false; ++m.built; MC_CHECK(g_nexit == nexit + (life == NODESTROY ? 0 : 1), "scheduled", "the destruction of a created object was scheduled %d times", g_nexit - nexit); }
      else MC_CHECK(g_nexit == nexit, "scheduled", "the destruction was scheduled again");
      MC_CHECK(o == R::log.obj, "other-object", "the caller got another object than the created one");
    }
    else MC_CHECK(g_nexit == nexit, "scheduled", "a destruction was scheduled though no object was created");
    if (ex == 2) { MC_CHECK(R::fail_first == fails - 1, "retry", "the construction was not tried once"); }
    if (!is_static) counts();
  }
  static void counts()
  {
    typedef Rec<N> R;
    MC_CHECK(R::log.built == m.built, "created", "the object was created %d times instead of %d", R::log.built, m.built);
    MC_CHECK(R::log.died == m.died, "destroyed", "the object was destroyed %d times instead of %d", R::log.died, m.died);
  }
  static void ended()
  {
    if (m.alive && life != NODESTROY) { m.alive = false; m.dead = true; ++m.died; }
    if (!is_static) counts();
  }
};
template <class K, int N> Life Driver<K, N>::life;
template <class K, int N> bool Driver<K, N>::is_static;
template <class K, int N> Model Driver<K, N>::m;

template <class K1, class K2, int N1, int N2>
void histories(Life l1, Life l2, int depth)
{
  typedef Driver<K1, N1> D1; typedef Driver<K2, N2> D2;
  D1::life = l1; D2::life = l2; D1::is_static = D2::is_static = false; D1::m = Model(); D2::m = Model();
  Rec<N1>::log = Log(); Rec<N2>::log = Log(); Rec<N1>::points = Rec<N2>::points = false; Rec<N1>::fail_first = Rec<N2>::fail_first = 0;
  g_nexit = 0; g_observe = true;
  for (int i = 0; i < depth; ++i)
  {
    switch (mc::choose(4, "operation"))
    {
      case 0: mc::trace("access 1"); D1::access(); break;
      case 1: mc::trace("access 2"); D2::access(); break;
      case 2: mc::trace("the next construction of 1 fails"); if (Rec<N1>::fail_first || D1::m.alive) mc::prune(); Rec<N1>::fail_first = 1; break;
      case 3: mc::trace("program end"); programEnd(); D1::ended(); D2::ended(); break;
    }
  }
  D1::counts(); D2::counts();
  programEnd(); D1::ended(); D2::ended();
  g_observe = false;
  mc::outcome(mc::format("%d/%d %d/%d", D1::m.built, D1::m.died, D2::m.built, D2::m.died));
}

// ---------------------------------------------------------------- the real end of a process
// The order of the accesses, and of the user's own functions for the end, is chosen; what a real process
// does at exit() is reported through a pipe.
int g_pipe = -1;
void say(char c) { if (g_pipe >= 0 && write(g_pipe, &c, 1) != 1) _exit(9); }
template <int N> struct Speaker
{
  int v;
  Speaker() : v(N) { say(char('A' + N)); }
  ~Speaker() { say(v == N ? char('a' + N) : '!'); v = -1; }
};
template <int N, template <class> class C, template <class> class L, template <class> class M>
struct Talk { typedef icl_core::Singleton<Speaker<N>, C, L, M> S; static void use() { Speaker<N>& s = S::instance(); if (s.v != N) say('?'); } };
typedef Talk<0, icl_core::SCPCreateUsingNew, icl_core::SLPDefaultLifetime, icl_core::thread::STMMultiThreadedWithMutex> Talk0;
typedef Talk<1, icl_core::SCPCreateUsingMalloc, icl_core::SLPDefaultLifetime, icl_core::STMSingleThreaded> Talk1;
typedef Talk<2, icl_core::SCPCreateStatic, icl_core::SLPDefaultLifetime, icl_core::logging::STMMultiThreadedWithSemaphore> Talk2;
typedef Talk<3, icl_core::SCPCreateUsingNew, icl_core::SLPNoDestroy, icl_core::thread::STMMultiThreadedWithMutex> Talk3;
typedef Talk<4, icl_core::SCPCreateStatic, icl_core::SLPNoDestroy, icl_core::STMSingleThreaded> Talk4;
typedef Talk<5, icl_core::SCPCreateUsingMalloc, icl_core::SLPNoDestroy, icl_core::logging::STMMultiThreadedWithSemaphore> Talk5;

void lateUse() { try { Talk0::S::instance(); say('0'); } catch (const std::logic_error&) { say('X'); } }
void lateUse1() { try { Talk1::S::instance(); say('0'); } catch (const std::logic_error&) { say('X'); } }

void processEnd(int depth)
{
  static const char* NAMES[] = { "use new", "use malloc", "use static", "use undestroyed new", "use undestroyed static", "use undestroyed malloc", "at the end: use new", "at the end: use malloc" };
  int ops[8];
  for (int i = 0; i < depth; ++i) { ops[i] = mc::choose(8, "operation"); mc::trace("%s", NAMES[ops[i]]); }
  int p[2]; if (pipe(p) != 0) mc::fail("harness", "no pipe");
  pid_t pid = fork();
  if (pid == 0)
  {
    close(p[0]); g_pipe = p[1];
    for (int i = 0; i < depth; ++i)
      switch (ops[i])
      {
        case 0: Talk0::use(); break; case 1: Talk1::use(); break; case 2: Talk2::use(); break;
        case 3: Talk3::use(); break; case 4: Talk4::use(); break; case 5: Talk5::use(); break;
        case 6: atexit(lateUse); break; case 7: atexit(lateUse1); break;
      }
    say('.');
    exit(0);
  }
  close(p[1]);
  std::string got; char b[256]; ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0) got.append(b, size_t(n));
  close(p[0]);
  int st = 0; waitpid(pid, &st, 0);
  MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "exit", "the process ended with status %d; events %s", st, got.c_str());
  // reference: the objects are created in order of their first use; at the end, everything registered is
  // undone in reverse order
  std::string want; bool made[6] = { false, false, false, false, false, false }; std::string stack;   // lower case: destroy; X,Y: late use
  for (int i = 0; i < depth; ++i)
  {
    int o = ops[i];
    if (o >= 6) { stack += o == 6 ? 'X' : 'Y'; continue; }
    if (made[o]) continue;
    made[o] = true; want += char('A' + o);
    if (o == 0 || o == 1 || o == 2 || o == 4) stack += char('a' + o);
  }
  want += '.';
  for (size_t i = stack.size(); i-- > 0;)
  {
    char c = stack[i];
    if (c == 'X' || c == 'Y')
    {
      int k = c == 'X' ? 0 : 1; bool alive = made[k] && stack.substr(0, i).find(char('a' + k)) != std::string::npos;
      bool existed = made[k];
      if (alive) want += '0';
      else if (existed) want += 'X';
      else { want += char('A' + k); want += '0'; made[k] = true; stack.resize(i); stack += char('a' + k); ++i; }   // first use at the end: registered there and destroyed next
    }
    else want += c;
    if (c != 'X' && c != 'Y') stack.resize(i);
  }
  MC_CHECK(got == want, "process-end", "created and destroyed %s instead of %s (capital: created, '.': end, small: destroyed, X: refused)", got.c_str(), want.c_str());
  mc::outcome(got.substr(got.find('.')));
}

} // namespace

extern "C" int __cxa_atexit(void (*)(void*), void*, void*);
static void callFunc(void* f) { reinterpret_cast<Func>(f)(); }
extern "C" int atexit(void (*f)())
{
  if (!g_observe) return __cxa_atexit(callFunc, reinterpret_cast<void*>(f), nullptr);
  sched::Quiet q;
  if (g_nexit == 16) mc::fail("scheduled", "the destruction was scheduled too often");
  g_exit[g_nexit++] = f;
  return 0;
}

int main(int argc, char** argv)
{
  using namespace icl_core;
  using icl_core::thread::STMMultiThreadedWithMutex;
  using icl_core::logging::STMMultiThreadedWithSemaphore;
  bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
  std::vector<mc::Scenario> sc;
  sched::Options intr; intr.interrupts = true;
  std::vector<int> b2 = th ? std::vector<int>{0, 1, 2, 3, 4} : std::vector<int>{0, 1, 2, 3}, b3 = th ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1, 2};
#define RACE2(name, N, C, L, M, owned, destroyed) \
  sc.push_back(sched::scenario(name, [] { race<Kind<N, C, L, M>, N>(2, true, owned, destroyed); }, b2, intr)); \
  sc.push_back(sched::scenario(name "-3", [] { race<Kind<N, C, L, M>, N>(3, false, owned, destroyed); }, b3, intr))
  RACE2("mutex-new", 10, SCPCreateUsingNew, SLPDefaultLifetime, STMMultiThreadedWithMutex, true, true);
  RACE2("mutex-malloc", 11, SCPCreateUsingMalloc, SLPDefaultLifetime, STMMultiThreadedWithMutex, true, true);
  RACE2("mutex-static", 12, SCPCreateStatic, SLPDefaultLifetime, STMMultiThreadedWithMutex, true, false);
  RACE2("semaphore-new", 13, SCPCreateUsingNew, SLPDefaultLifetime, STMMultiThreadedWithSemaphore, true, true);
  RACE2("semaphore-malloc", 14, SCPCreateUsingMalloc, SLPNoDestroy, STMMultiThreadedWithSemaphore, false, false);
  RACE2("semaphore-user", 15, InPlace, Phoenix, STMMultiThreadedWithSemaphore, true, true);
  int d = th ? 8 : 6;
#define HIST(name, N, C1, L1, M1, l1, C2, L2, M2, l2) \
  sc.push_back(mc::Scenario(name, [d] { histories<Kind<N, C1, L1, M1>, Kind<N + 1, C2, L2, M2>, N, N + 1>(l1, l2, d); }).forked())
  HIST("default-history", 20, SCPCreateUsingNew, SLPDefaultLifetime, STMSingleThreaded, DEFAULT, SCPCreateUsingMalloc, SLPDefaultLifetime, STMSingleThreaded, DEFAULT);
  HIST("phoenix-history", 30, SCPCreateUsingNew, Phoenix, STMMultiThreadedWithMutex, PHOENIX, SCPCreateUsingMalloc, Phoenix, STMSingleThreaded, PHOENIX);
  HIST("undestroyed-history", 40, InPlace, SLPNoDestroy, STMSingleThreaded, NODESTROY, InPlace, Phoenix, STMMultiThreadedWithSemaphore, PHOENIX);
  HIST("mutex-history", 50, SCPCreateUsingMalloc, SLPNoDestroy, STMMultiThreadedWithMutex, NODESTROY, SCPCreateUsingNew, SLPDefaultLifetime, STMMultiThreadedWithMutex, DEFAULT);
  sc.push_back(mc::Scenario("process-end", [th] { processEnd(th ? 5 : 4); }).forked());
  return mc::run(argc, argv, sc);
}
