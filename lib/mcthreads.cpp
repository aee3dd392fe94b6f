// Controlled scheduler for the real multi-threaded code.
//
// All threads of an execution are fibers of one process. The code under test is compiled with
// -fsanitize=thread and linked with this file instead of the sanitizer's run time, so that every
// memory access and atomic operation calls back here; the blocking primitives, the clock, thread
// creation and the heap are replaced by models. A scheduling point is placed before every operation
// on a synchronisation object or atomic that more than one thread uses and before every access to a
// memory word on which a data race (two accesses by different threads, one of them a write, not
// ordered by happens-before) was seen; the set of such locations is learned to a fixpoint.
// Between scheduling points a thread runs alone, so executions are sequentially consistent.
#include "mcthreads.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <unistd.h>
#include <unwind.h>
#include <execinfo.h>
#include <atomic>
#include <memory>
#include <vector>

extern "C" void* __cxa_get_globals() noexcept;
extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
#define memcpy __real_memcpy
#define memset __real_memset

namespace {

typedef uintptr_t Word;
const int MAXT = 12;
const int64_t NEVER = INT64_MAX;

// ---------------------------------------------------------------- heap
// region 0 is the allocator outside executions; region t+1 belongs to thread t of an execution.
const uintptr_t HEAP = 0x100000000000ull, REGION = 1ull << 32, SHADOW = 0x180000000000ull;
const int NREGION = MAXT + 1;
const unsigned char SH_FREED = 0xfd;       // shadow: 0 nothing here, 1..16 valid bytes, 0xfd freed
bool g_heap_ready = false;
uintptr_t g_brk[NREGION];
size_t g_live = 0;
int g_region = 0;

struct Header { size_t size; uint32_t state; uint32_t seq; };       // 16 bytes in front of each block
const uint32_t LIVE = 0x4c495645, DEAD = 0x44454144;
struct FreeNode { FreeNode* next; };
FreeNode* g_free[64];

void heapInit()
{
  if (g_heap_ready) return;
  void* p = mmap((void*)HEAP, REGION * NREGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* q = mmap((void*)SHADOW, REGION * NREGION / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)HEAP || q != (void*)SHADOW) { static const char m[] = "sched: no heap\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
  for (int i = 0; i < NREGION; ++i) g_brk[i] = HEAP + REGION * uintptr_t(i) + 64;
  g_heap_ready = true;
}
inline bool inHeap(uintptr_t a) { return a - HEAP < REGION * NREGION; }
inline unsigned char* shadowOf(uintptr_t a) { return (unsigned char*)(SHADOW + ((a - HEAP) >> 4)); }
int sizeClass(size_t n) { int c = 0; while ((size_t(16) << c) < n) ++c; return c; }

bool g_trace_heap = getenv("VERIF_TRACE_HEAP") != nullptr;     // debugging aid for --replay
void traceHeap(const char* what, uintptr_t a, size_t n)
{
  if (!mc::tracing()) return;
  char b[120]; int l = snprintf(b, sizeof b, "HEAP %s %lx %zu\n", what, (unsigned long)a, n);
  syscall(SYS_write, 2, b, size_t(l));
  void* pc[12]; g_trace_heap = false; int k = backtrace(pc, 12); backtrace_symbols_fd(pc, k, 2); g_trace_heap = true;
}

void* heapAlloc(size_t n, size_t align)
{
  heapInit();
  if (n == 0) n = 1;
  if (n > (1u << 30)) { errno = ENOMEM; return nullptr; }
  if (align < 16) align = 16;
  int r = g_region;
  if (r == 0)
  {
    int c = sizeClass(n);
    if (align == 16 && g_free[c]) { FreeNode* f = g_free[c]; g_free[c] = f->next; ((Header*)f)[-1].state = LIVE; ((Header*)f)[-1].size = n; return f; }
    n = size_t(16) << c;
  }
  uintptr_t a = (g_brk[r] + 32 + align - 1) & ~(align - 1);           // header and a gap in front
  g_brk[r] = a + ((n + 15) & ~size_t(15));
  if (g_brk[r] > HEAP + REGION * uintptr_t(r + 1) - 64) { errno = ENOMEM; return nullptr; }
  Header* h = (Header*)a - 1;
  h->size = n; h->state = LIVE; h->seq = 0;
  if (r)
  {
    ++g_live;
    if (g_trace_heap) traceHeap("alloc", a, n);
    unsigned char* s = shadowOf(a);
    size_t i = 0;
    for (; i + 16 <= n; i += 16) *s++ = 16;
    if (i < n) *s = (unsigned char)(n - i);
    memset((void*)a, 0xa5, n < 4096 ? n : 4096);
  }
  return (void*)a;
}

// ---------------------------------------------------------------- learned locations
const uint32_t LEARNCAP = 1 << 14;
struct Learned
{
  std::atomic<uint64_t> next[LEARNCAP];
  std::atomic<uint32_t> nnext;
  uint64_t cur[LEARNCAP];
  uint32_t ncur;
};
Learned* L = nullptr;

inline uint32_t hashWord(Word w) { return uint32_t((w * 0x9e3779b97f4a7c15ull) >> 40); }
bool learnedCur(Word w)
{
  uint32_t i = hashWord(w) & (LEARNCAP - 1);
  for (;;)
  {
    uint64_t v = L->cur[i];
    if (v == w) return true;
    if (v == 0) return false;
    i = (i + 1) & (LEARNCAP - 1);
  }
}
void engineAbort(const char* m);
void learn(Word w)
{
  if (!L) return;
  uint32_t i = hashWord(w) & (LEARNCAP - 1);
  for (;;)
  {
    uint64_t v = L->next[i].load(std::memory_order_relaxed);
    if (v == w) return;
    if (v == 0)
    {
      if (L->nnext > LEARNCAP / 2) engineAbort("too many racing locations");
      uint64_t e = 0;
      if (L->next[i].compare_exchange_strong(e, w)) { L->nnext++; return; }
      if (e == w) return;
    }
    i = (i + 1) & (LEARNCAP - 1);
  }
}
void learnReset() { if (!L) L = (Learned*)mc::sharedAlloc(sizeof(Learned)); memset((void*)L, 0, sizeof(Learned)); }
bool learnPromote()
{
  uint32_t n = L->nnext;
  if (n == L->ncur) return false;
  for (uint32_t i = 0; i < LEARNCAP; ++i) L->cur[i] = L->next[i].load();
  L->ncur = n;
  return true;
}

// ---------------------------------------------------------------- threads
typedef uint32_t Clock;
struct VC { Clock c[MAXT]; };
inline void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

enum State { FREE, RUN, WAIT, DONE };
enum Why { READY, TIMEOUT, INTR, CANCELLED };
struct Pred { bool (*fn)(void*, uintptr_t); void* a; uintptr_t b; };

struct Fiber
{
  State state; void* sp; char* stack; size_t stack_size;
  void* (*fn)(void*); void* arg; void* ret;
  bool detached, joined, cancel, cancel_enabled, interruptible, cancellable, intr, quiet_base;
  int quiet;
  Pred pred; int64_t deadline; const char* what;
  int err; void* eh[2];
  VC vc;
  Word spin_addr; uint64_t spin_value; int spin_count; int quantum, quanta; bool soft, yielded; unsigned spin_size;
  uintptr_t unwind_stop;
};

struct Sync                              // model of one synchronisation object
{
  Word key; int kind;                    // 1 mutex 2 semaphore 3 rwlock 4 condition 5 once/guard 6 atomic
  int type, owner, count; unsigned value;
  int readers; int rcount[MAXT]; int waiters; uint64_t ticket;
  VC vc; int first;                      // first: first thread that used it (-1 none)
};
const uint32_t SYNCCAP = 1 << 12;

struct Cell { Word w; int16_t wt; uint16_t pad; Clock wc; Clock rc[MAXT]; };
const uint32_t CELLCAP = 1 << 16;

struct Fd { bool used; int64_t next, interval; uint64_t pending_from; bool armed; int flags; };

struct World
{
  bool on; int n, cur; int64_t clock; int used; int points; sched::Options opt;
  Fiber f[MAXT]; Sync sync[SYNCCAP]; uint32_t nsync; uint32_t ncell; Fd fd[64]; int nfd;
  struct { uintptr_t a; size_t n; const char* what; } watch[32]; int nwatch;
  void* main_sp; uint64_t ticket; int rt; VC fence;
};
World g_world;
World* w = nullptr;
Cell* g_cells = nullptr;

void engineAbort(const char* m)
{
  fprintf(stderr, "sched: %s\n", m);
  mc::fail("scheduler-limit", "%s", m);
}

inline bool active() { return w && w->on && w->rt == 0; }
inline Fiber& me() { return w->f[w->cur]; }
struct Rt { Rt() { ++w->rt; } ~Rt() { --w->rt; } };

asm(R"(
.text
.p2align 4
.type verif_switch,@function
verif_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size verif_switch,.-verif_switch
)");
extern "C" void verif_switch(void** from, void* to);

void switchTo(int t)
{
  if (t == w->cur) return;
  Fiber& a = me(); Fiber& b = w->f[t];
  int rt = w->rt;
  a.err = errno; memcpy(a.eh, __cxa_get_globals(), sizeof a.eh);
  w->cur = t; g_region = t + 1;
  errno = b.err; memcpy(__cxa_get_globals(), b.eh, sizeof b.eh);
  verif_switch(&a.sp, b.sp);
  w->rt = rt;
}

bool enabled(Fiber& f)
{
  if (f.state == RUN) return true;
  if (f.state != WAIT) return false;
  if (f.pred.fn && f.pred.fn(f.pred.a, f.pred.b)) return true;
  return f.intr || (f.cancel && f.cancellable && f.cancel_enabled) || f.deadline <= w->clock;
}

int64_t earliest(int* who)
{
  int64_t d = NEVER;
  for (int i = 0; i < w->n; ++i)
    if (w->f[i].state == WAIT && !enabled(w->f[i]) && w->f[i].deadline < d) { d = w->f[i].deadline; if (who) *who = i; }
  return d;
}

void describe()
{
  std::string s;
  for (int i = 0; i < w->n; ++i)
    s += mc::format("%s%d:%s%s%s", i ? ", " : "", i, w->f[i].state == RUN ? "runs" : w->f[i].state == WAIT ? "waits for " : "finished",
                    w->f[i].state == WAIT ? w->f[i].what : "", "");
  mc::trace("   threads: %s", s.c_str());
}

void stuck()
{
  std::string s;
  for (int i = 0; i < w->n; ++i)
    if (w->f[i].state == WAIT) s += mc::format("%sthread %d waits for %s", s.empty() ? "" : ", ", i, w->f[i].what);
  mc::fail("deadlock", "no thread can continue: %s", s.c_str());
}

// The running thread cannot (or need not) continue by itself: pick who runs next.
void reschedule(bool may_stay)
{
  for (;;)
  {
    if (++w->points > w->opt.max_points) { describe(); mc::fail("livelock", "more than %d scheduling points", w->opt.max_points); }
    int cand[2 * MAXT + 2], kind[2 * MAXT + 2], n = 0;
    // threads that yielded run again once the others wait or have yielded, too
    for (int pass = 0; pass < 2 && n == 0; ++pass)
      for (int i = 0; i < w->n; ++i)
      {
        if (pass) w->f[i].yielded = false;
        if (!w->f[i].yielded && (may_stay || i != w->cur || w->f[i].state == WAIT) && enabled(w->f[i])) { cand[n] = i; kind[n++] = 0; }
      }
    bool any = n > 0;
    if (!any && !may_stay && me().state == RUN)                        // a yield with nobody else
    {
      int64_t d = earliest(nullptr);
      if (d == NEVER) return;
      w->clock = d; mc::trace("   time passes");
      continue;
    }
    int who = -1;
    if (w->used < mc::bound())
    {
      if (w->opt.timeouts && any && earliest(&who) != NEVER) { cand[n] = who; kind[n++] = 1; }
      if (w->opt.interrupts)
        for (int i = 0; i < w->n; ++i)
          if (w->f[i].state == WAIT && w->f[i].interruptible && !enabled(w->f[i])) { cand[n] = i; kind[n++] = 2; }
    }
    if (!any)
    {
      // nothing can run: time passes until the next deadline
      int64_t d = earliest(&who);
      if (d == NEVER)
        for (int k = 1; k <= w->n; ++k)
        {
          int i = (w->cur + k) % w->n;
          if (w->f[i].state == WAIT && w->f[i].soft) { switchTo(i); return; }       // nobody else can run: it may loop on
        }
      if (n == 0 && d == NEVER) stuck();
      if (d != NEVER)
      {
        bool others = false; for (int k = 0; k < n; ++k) if (kind[k] == 2) others = true;
        int c = others ? mc::choose(1 + n, "time or signal") : 0;
        if (c == 0) { w->clock = d; mc::trace("   time passes"); continue; }
        ++w->used; w->f[cand[c - 1]].intr = true; mc::trace("   signal interrupts thread %d", cand[c - 1]); switchTo(cand[c - 1]); return;
      }
      // only interruptions left: a signal cannot be relied upon
      stuck();
    }
    int c = n > 1 ? mc::choose(n, "next thread") : 0;
    if (kind[c] == 1) { ++w->used; w->clock = w->f[cand[c]].deadline; mc::trace("   time passes for thread %d", cand[c]); }
    else if (kind[c] == 2) { ++w->used; w->f[cand[c]].intr = true; mc::trace("   signal interrupts thread %d", cand[c]); }
    switchTo(cand[c]);
    return;
  }
}

// A point at which other threads may run although the running one can continue.
void schedulePoint(const char* what)
{
  mc::transition();
  if (++w->points > w->opt.max_points) { describe(); mc::fail("livelock", "more than %d scheduling points", w->opt.max_points); }
  if (w->used >= mc::bound()) return;
  int cand[2 * MAXT + 2], kind[2 * MAXT + 2], n = 1;
  for (int i = 0; i < w->n; ++i) if (i != w->cur && enabled(w->f[i])) { cand[n] = i; kind[n++] = 0; }
  int who = -1;
  if (w->opt.timeouts && earliest(&who) != NEVER) { cand[n] = who; kind[n++] = 1; }
  if (w->opt.interrupts)
    for (int i = 0; i < w->n; ++i)
      if (w->f[i].state == WAIT && w->f[i].interruptible && !enabled(w->f[i])) { cand[n] = i; kind[n++] = 2; }
  if (n == 1) return;
  int c = mc::choose(n, what);
  if (c == 0) return;
  ++w->used;
  if (kind[c] == 1) { w->clock = w->f[cand[c]].deadline; mc::trace("   time passes for thread %d", cand[c]); }
  else if (kind[c] == 2) { w->f[cand[c]].intr = true; mc::trace("   signal interrupts thread %d", cand[c]); }
  else mc::trace("   thread %d is preempted by %d before: %s", w->cur, cand[c], what);
  switchTo(cand[c]);
}

void unwindSelf();
void testCancel() { if (me().cancel && me().cancel_enabled) { unwindSelf(); } }

Why waitFor(Pred p, int64_t deadline, const char* what, bool cancellable, bool interruptible)
{
  Fiber& f = me();
  f.state = WAIT; f.pred = p; f.deadline = deadline; f.what = what; f.cancellable = cancellable; f.interruptible = interruptible; f.intr = false;
  reschedule(true);
  // running again: why
  Why r;
  if (f.pred.fn && f.pred.fn(f.pred.a, f.pred.b)) r = READY;
  else if (f.intr) r = INTR;
  else if (f.cancel && f.cancellable && f.cancel_enabled) r = CANCELLED;
  else r = TIMEOUT;
  f.state = RUN; f.intr = false; f.spin_count = 0;
  return r;
}

// The running thread keeps re-reading one unchanged word: let the others run until it has changed.
bool predChanged(void* p, uintptr_t)
{
  Fiber& f = *(Fiber*)p;
  uint64_t v = 0; memcpy(&v, (void*)f.spin_addr, f.spin_size);
  return v != f.spin_value;
}
void spinWait(unsigned size)
{
  Fiber& f = me();
  if (++f.spin_count > 3000) { describe(); mc::fail("livelock", "thread %d keeps reading an unchanged location", w->cur); }
  int c = f.spin_count; Word a = f.spin_addr; uint64_t v = f.spin_value;
  f.spin_size = size; f.soft = true;
  waitFor({predChanged, &f, 0}, NEVER, "a location to change", false, false);
  f.soft = false; f.spin_count = c; f.spin_addr = a; f.spin_value = v;
}

// ---------------------------------------------------------------- happens-before
Sync* syncAt(const void* p, int kind)
{
  Word key = Word(p);
  uint32_t i = hashWord(key * 7 + 1) & (SYNCCAP - 1);
  for (;;)
  {
    Sync& s = w->sync[i];
    if (s.key == key) { if (s.kind != kind) { memset(&s, 0, sizeof s); s.key = key; s.kind = kind; s.owner = -1; s.first = -1; } return &s; }
    if (s.key == 0)
    {
      if (++w->nsync > SYNCCAP * 3 / 4) engineAbort("too many synchronisation objects");
      s.key = key; s.kind = kind; s.owner = -1; s.first = -1;
      return &s;
    }
    i = (i + 1) & (SYNCCAP - 1);
  }
}
void acquire(VC& v) { join(me().vc, v); }
void release(VC& v) { join(v, me().vc); ++me().vc.c[w->cur]; }

// Is this an object that several threads use? (learned like racing words)
bool sharedObject(Sync* s)
{
  if (s->first < 0) s->first = w->cur;
  else if (s->first != w->cur) learn(s->key);
  return learnedCur(s->key);
}
void checkHeap(uintptr_t a, size_t n, bool wr);
void pointAt(Sync* s, const char* what)
{
  checkHeap(s->key, 1, true);
  me().spin_count = 0;
  if (sharedObject(s) && me().quiet == 0) schedulePoint(what);
}

Cell* cellAt(Word a)
{
  uint32_t i = uint32_t((a >> 3) ^ (a >> 28) * 0x9e37) & (CELLCAP - 1);
  for (;;)
  {
    Cell& c = g_cells[i];
    if (c.w == a) return &c;
    if (c.w == 0)
    {
      if (++w->ncell > CELLCAP * 3 / 4) engineAbort("too many memory words");
      c.w = a; c.wt = -1; return &c;
    }
    i = (i + 1) & (CELLCAP - 1);
  }
}

void checkHeap(uintptr_t a, size_t n, bool wr)
{
  if (!inHeap(a) || a < HEAP + REGION) return;       // blocks from before the execution are not checked
  uintptr_t e = a + n;
  for (uintptr_t g = a & ~uintptr_t(15); g < e; g += 16)
  {
    unsigned char s = *shadowOf(g);
    if (s == SH_FREED) { Rt rt; mc::fail("use-after-free", "%s of %zu bytes in released memory by thread %d", wr ? "write" : "read", n, w->cur); }
    uintptr_t last = (e < g + 16 ? e : g + 16) - g;
    if (last > s) { Rt rt; mc::fail("out-of-bounds", "%s of %zu bytes outside its block by thread %d", wr ? "write" : "read", n, w->cur); }
  }
}

void access(uintptr_t a, size_t n, bool wr)
{
  if (!active()) return;
  Fiber& f = me();
  if (f.quiet) return;
  checkHeap(a, n, wr);
  uintptr_t end = a + (n ? n : 1);
  bool point = false;
  for (Word k = a & ~uintptr_t(7); k < end; k += 8) if (learnedCur(k)) { point = true; break; }
  if (point)
  {
    Rt rt;
    // a loop that only re-reads one unchanged word cannot make progress by itself
    uint64_t v = 0;
    if (!wr && n <= 8) { memcpy(&v, (void*)a, n); }
    if (!wr && f.spin_addr == a && f.spin_value == v && f.spin_count > 0)
    {
      if (++f.spin_count > 6) spinWait(unsigned(n));
      else schedulePoint("read");
    }
    else { f.spin_addr = a; f.spin_value = v; f.spin_count = wr ? 0 : 1; schedulePoint(wr ? "write" : "read"); }
  }
  else
  {
    f.spin_count = 0;
    // a long computation, or a loop that waits for something nobody was seen to change yet
    if (++f.quantum > 20000) { Rt rt; f.quantum = 0; if (++f.quanta > 500) { describe(); mc::fail("livelock", "thread %d does not stop computing", w->cur); } reschedule(false); point = true; }
  }
  if (point) checkHeap(a, n, wr);                   // others ran meanwhile
  int t = w->cur; VC& vc = f.vc;
  for (Word k = a & ~uintptr_t(7); k < end; k += 8)
  {
    Cell* c = cellAt(k);
    int race = -1;
    if (c->wt >= 0 && c->wt != t && c->wc > vc.c[c->wt]) race = c->wt;
    if (wr)
    {
      for (int i = 0; i < w->n; ++i) if (i != t && c->rc[i] > vc.c[i]) race = i;
      c->wt = int16_t(t); c->wc = vc.c[t];
      memset(c->rc, 0, sizeof c->rc);
    }
    else c->rc[t] = vc.c[t];
    if (race >= 0)
    {
      learn(k);
      for (int i = 0; i < w->nwatch; ++i)
        if (k + 8 > w->watch[i].a && k < w->watch[i].a + w->watch[i].n && a < w->watch[i].a + w->watch[i].n && end > w->watch[i].a)
        {
          Rt rt;
          mc::fail("unordered-access", "thread %d %s %s, unordered with the access of thread %d", t, wr ? "writes" : "reads", w->watch[i].what, race);
        }
    }
  }
}

// ---------------------------------------------------------------- fibers
void finish(void* ret)
{
  ++w->rt;
  Fiber& f = me();
  f.ret = ret; f.state = DONE; ++f.vc.c[w->cur];
  mc::trace("   thread %d ends", w->cur);
  if (w->cur == 0)
  {
    w->on = false; g_region = 0;
    void* dummy; verif_switch(&dummy, w->main_sp);
  }
  --w->rt;
  { Rt rt; reschedule(true); }
  abort();
}

void fiberMain() __attribute__((noreturn));
void fiberMain()
{
  Fiber& f = me();
  w->rt = 0;
  void* r = f.fn(f.arg);
  finish(r);
  abort();
}

_Unwind_Reason_Code unwindStop(int, _Unwind_Action act, _Unwind_Exception_Class, _Unwind_Exception*, _Unwind_Context* ctx, void*)
{
  if ((act & _UA_END_OF_STACK) || _Unwind_GetCFA(ctx) >= me().unwind_stop) finish((void*)-1);
  return _URC_NO_REASON;
}
void unwindCleanup(_Unwind_Reason_Code, _Unwind_Exception*) { }
_Unwind_Exception g_unwind[MAXT];

void unwindSelf()
{
  Fiber& f = me();
  f.cancel = false; f.cancel_enabled = false;
  _Unwind_Exception* e = &g_unwind[w->cur];
  memset(e, 0, sizeof *e); e->exception_cleanup = unwindCleanup;
  _Unwind_ForcedUnwind(e, unwindStop, nullptr);
  finish((void*)-1);
}

int newFiber(void* (*fn)(void*), void* arg)
{
  if (w->n >= MAXT) engineAbort("too many threads");
  int t = w->n++;
  Fiber& f = w->f[t];
  memset(&f, 0, sizeof f);
  f.stack_size = t == 0 ? 1 << 20 : 512 << 10;
  uintptr_t at = 0x170000000000ull + uintptr_t(t) * (4 << 20);
  f.stack = (char*)mmap((void*)at, f.stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (f.stack != (char*)at) engineAbort("no stack");
  f.fn = fn; f.arg = arg; f.state = RUN; f.deadline = NEVER; f.cancel_enabled = true; f.what = "";
  f.unwind_stop = uintptr_t(f.stack) + f.stack_size - 64;
  void** sp = (void**)(f.stack + f.stack_size - 64);
  *--sp = nullptr;                       // return address of fiberMain: end of stack
  *--sp = (void*)fiberMain;
  for (int i = 0; i < 6; ++i) *--sp = nullptr;
  f.sp = sp;
  return t;
}

template <class F> F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__) = nullptr; if (!real_##name) real_##name = real<ret (*)(__VA_ARGS__)>(#name)

inline int64_t ns(const timespec* t)
{
  if (t->tv_sec > 9000000000ll) return NEVER;
  return int64_t(t->tv_sec) * 1000000000 + t->tv_nsec;
}
inline bool badTime(const timespec* t) { return t->tv_nsec < 0 || t->tv_nsec >= 1000000000; }
const int64_t MONO_OFFSET = 999000000000000000ll;     // monotonic clock = wall clock - this

const pthread_t TID = 0x7a0000;
int tidOf(pthread_t p) { long i = long(p) - long(TID) - 1; return i >= 0 && i < w->n ? int(i) : -1; }

} // namespace

// ================================================================ public interface
namespace sched {

static std::function<void()> g_body;
static void* mainThunk(void*) { g_body(); return nullptr; }

void run(const std::function<void()>& body, const Options& o)
{
  if (w) memset((void*)&g_world, 0, sizeof g_world);
  w = &g_world;
  w->opt = o; w->clock = o.start_ns;
  if (!g_cells)
    g_cells = (Cell*)mmap((void*)0x168000000000ull, sizeof(Cell) * CELLCAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  heapInit();
  if (!L) learnReset();
  g_body = body;
  g_live = 0;
  w->cur = newFiber(mainThunk, nullptr);
  w->f[0].vc.c[0] = 1;
  g_region = 1;
  w->on = true;
  verif_switch(&w->main_sp, w->f[0].sp);
  mc::trace("   %d deviations, %d points", w->used, w->points);
}

mc::Scenario scenario(const std::string& name, std::function<void()> body, std::vector<int> bounds, Options o)
{
  mc::Scenario s(name, [body, o] { run(body, o); });
  s.forked().withBounds(bounds).repeatWhile([] { return learnPromote(); });
  s.before = [] { learnReset(); };
  s.save = [] {
    std::string r;
    for (uint32_t i = 0; i < LEARNCAP; ++i) if (L->cur[i]) r += mc::format(" %llx", (unsigned long long)L->cur[i]);
    return r;
  };
  s.load = [](const std::string& t) {
    learnReset();
    const char* p = t.c_str(); char* e;
    for (;;) { unsigned long long v = strtoull(p, &e, 16); if (e == p) break; learn(Word(v)); p = e; }
    learnPromote();
  };
  return s;
}

int self() { return w->cur; }
int threads() { return w->n; }
int alive() { int n = 0; for (int i = 0; i < w->n; ++i) n += i != w->cur && w->f[i].state != DONE; return n; }
bool finished(int t) { return w->f[t].state == DONE; }
bool blocked(int t) { return w->f[t].state == WAIT; }
int unjoined() { int n = 0; for (int i = 1; i < w->n; ++i) n += !w->f[i].joined && !w->f[i].detached; return n; }
int64_t now() { return w->clock; }
int preemptions() { return w->used; }
size_t liveBlocks() { return g_live; }
int openFds() { int n = 0; for (int i = 0; i < w->nfd; ++i) n += w->fd[i].used; return n; }
void elapse(int64_t n)
{
  if (!active()) return;
  Rt rt;                               // the others have processors of their own meanwhile
  schedulePoint("computes");
  if (n > 0) waitFor({nullptr, nullptr, 0}, w->clock + n, "a computation", false, false);
}
void point(const char* label) { if (!active()) return; Rt rt; me().spin_count = 0; schedulePoint(label); }
void trace(const char* fmt, ...)
{
  if (!mc::tracing()) return;
  char b[500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (w) ++w->rt;
  mc::trace("[%d] %s", w && w->on ? w->cur : -1, b);
  if (w) --w->rt;
}
void watch(const void* p, size_t n, const char* what)
{
  if (w->nwatch == 32) engineAbort("too many watches");
  w->watch[w->nwatch++] = { uintptr_t(p), n, what };
}
void unwatch(const void* p)
{
  for (int i = 0; i < w->nwatch; ++i) if (w->watch[i].a == uintptr_t(p)) { w->watch[i] = w->watch[--w->nwatch]; return; }
}
bool holds(const void* m) { for (uint32_t i = 0; i < SYNCCAP; ++i) if (w->sync[i].key == Word(m)) return w->sync[i].owner >= 0; return false; }
Quiet::Quiet() { if (w && w->on) ++me().quiet; }
Quiet::~Quiet() { if (w && w->on) --me().quiet; }

} // namespace sched

// ================================================================ heap
extern "C" {

void* malloc(size_t n) { return heapAlloc(n, 16); }
void free(void* p)
{
  if (!p) return;
  Header* h = (Header*)p - 1;
  uintptr_t a = uintptr_t(p);
  bool ex = inHeap(a) && a >= HEAP + REGION;
  if (!inHeap(a)) { if (w && w->on) { Rt rt; mc::fail("invalid-free", "thread %d releases memory that was not allocated", w->cur); } return; }
  if (h->state != LIVE)
  {
    if (w && w->on) { Rt rt; mc::fail(h->state == DEAD ? "double-free" : "invalid-free", "thread %d releases %s", w->cur, h->state == DEAD ? "memory twice" : "memory that was not allocated"); }
    return;
  }
  h->state = DEAD;
  if (ex)
  {
    if (g_live) --g_live;
    if (g_trace_heap) traceHeap("free", a, h->size);
    memset(shadowOf(a), SH_FREED, (h->size + 15) >> 4);
    memset(p, 0xdd, h->size < 4096 ? h->size : 4096);
  }
  else
  {
    if (w && w->on) return;                          // from before the execution: not reused within it
    int c = sizeClass(h->size);
    FreeNode* f = (FreeNode*)p; f->next = g_free[c]; g_free[c] = f;
  }
}
void* calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) return nullptr; void* p = heapAlloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n)
{
  if (!p) return malloc(n);
  if (!n) { free(p); return nullptr; }
  void* q = malloc(n);
  if (!q) return q;
  size_t o = ((Header*)p - 1)->size;
  memcpy(q, p, o < n ? o : n);
  free(p);
  return q;
}
int posix_memalign(void** o, size_t al, size_t n) { *o = heapAlloc(n, al); return *o ? 0 : ENOMEM; }
void* aligned_alloc(size_t al, size_t n) { return heapAlloc(n, al); }
void* memalign(size_t al, size_t n) { return heapAlloc(n, al); }
void* valloc(size_t n) { return heapAlloc(n, 4096); }
size_t malloc_usable_size(void* p) { return p ? ((Header*)p - 1)->size : 0; }

// ================================================================ sanitizer call-backs
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
#define RW(n) \
  void __tsan_read##n(void* a) { access(uintptr_t(a), n, false); } \
  void __tsan_write##n(void* a) { access(uintptr_t(a), n, true); } \
  void __tsan_unaligned_read##n(void* a) { access(uintptr_t(a), n, false); } \
  void __tsan_unaligned_write##n(void* a) { access(uintptr_t(a), n, true); } \
  void __tsan_volatile_read##n(void* a) { access(uintptr_t(a), n, false); } \
  void __tsan_volatile_write##n(void* a) { access(uintptr_t(a), n, true); } \
  void __tsan_read##n##_pc(void* a, void*) { access(uintptr_t(a), n, false); } \
  void __tsan_write##n##_pc(void* a, void*) { access(uintptr_t(a), n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { if (n) access(uintptr_t(a), n, false); }
void __tsan_write_range(void* a, size_t n) { if (n) access(uintptr_t(a), n, true); }
void __tsan_vptr_update(void** a, void*) { access(uintptr_t(a), 8, true); }
void __tsan_vptr_read(void** a) { access(uintptr_t(a), 8, false); }
// fences synchronise in their order of execution (a later one sees what precedes an earlier one)
void __tsan_atomic_thread_fence(int mo)
{
  if (!active()) return;
  Rt rt; schedulePoint("fence");
  if (mo != 3) acquire(w->fence);
  if (mo >= 3) release(w->fence);
}
void __tsan_atomic_signal_fence(int) { }
}

namespace {
// before: scheduling point and ordering; value: what the operation will see
template <class T> Sync* atomicBefore(const volatile T* p, const char* what)
{
  checkHeap(uintptr_t(p), sizeof(T), false);
  Sync* s = syncAt((const void*)p, 6);
  Fiber& f = me();
  bool shared = sharedObject(s);
  if (f.quiet == 0 && (shared || f.spin_count >= 4))
  {
    uint64_t v = 0; memcpy(&v, (const void*)p, sizeof(T));
    if (f.spin_addr == Word(p) && f.spin_value == v && f.spin_count >= 4)
    {
      spinWait(sizeof(T));               // it cannot make progress before another thread does
    }
    else if (shared) schedulePoint(what);
    checkHeap(uintptr_t(p), sizeof(T), false);
  }
  return s;
}
template <class T> void atomicAfter(volatile T* p, Sync* s, T before, bool wrote, int mo_r, int mo_w)
{
  Fiber& f = me();
  T now; memcpy(&now, (const void*)p, sizeof(T));
  if (memcmp(&now, &before, sizeof(T)) == 0)
  {
    uint64_t v = 0; memcpy(&v, &now, sizeof(T) < 8 ? sizeof(T) : 8);
    if (f.spin_addr == Word(p) && f.spin_value == v) ++f.spin_count; else { f.spin_addr = Word(p); f.spin_value = v; f.spin_count = 1; }
  }
  else f.spin_count = 0;
  if (mo_r == 1 || mo_r == 2 || mo_r == 4 || mo_r == 5) acquire(s->vc);
  if (wrote)
  {
    if (mo_w == 3 || mo_w == 4 || mo_w == 5) release(s->vc);
    else if (mo_r < 0) memset(&s->vc, 0, sizeof s->vc);      // a relaxed store breaks the release sequence
  }
}
template <class T, class F> T rmw(volatile T* p, int mo, const char* what, F fn)
{
  if (!active()) { T o = *p; *p = fn(o); return o; }
  Rt rt;
  Sync* s = atomicBefore(p, what);
  T o = *p; T n = fn(o); *p = n;
  atomicAfter<T>(p, s, o, true, mo, mo);
  return o;
}
}

#define ATOMIC(T, N) \
extern "C" { \
T __tsan_atomic##N##_load(const volatile T* p, int mo) \
{ if (!active()) return *p; Rt rt; Sync* s = atomicBefore(p, "atomic load"); T o = *p; atomicAfter<T>(const_cast<volatile T*>(p), s, o, false, mo, -1); return o; } \
void __tsan_atomic##N##_store(volatile T* p, T v, int mo) \
{ if (!active()) { *p = v; return; } Rt rt; Sync* s = atomicBefore(p, "atomic store"); T o = *p; *p = v; atomicAfter<T>(p, s, o, true, -1, mo); } \
T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { return rmw<T>(p, mo, "atomic exchange", [v](T) { return v; }); } \
T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { return rmw<T>(p, mo, "atomic add", [v](T o) { return T(o + v); }); } \
T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { return rmw<T>(p, mo, "atomic sub", [v](T o) { return T(o - v); }); } \
T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { return rmw<T>(p, mo, "atomic and", [v](T o) { return T(o & v); }); } \
T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { return rmw<T>(p, mo, "atomic or", [v](T o) { return T(o | v); }); } \
T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { return rmw<T>(p, mo, "atomic xor", [v](T o) { return T(o ^ v); }); } \
T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { return rmw<T>(p, mo, "atomic nand", [v](T o) { return T(~(o & v)); }); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) \
{ \
  if (!active()) { T o = *p; if (o == *c) { *p = v; return 1; } *c = o; return 0; } \
  Rt rt; Sync* s = atomicBefore(p, "compare exchange"); T o = *p; bool ok = o == *c; if (ok) *p = v; \
  atomicAfter<T>(p, s, o, ok, ok ? mo : fmo, mo); if (!ok) *c = o; return ok; \
} \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(p, c, v, mo, fmo); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(p, &c, v, mo, fmo); return c; } \
}
ATOMIC(uint8_t, 8)
ATOMIC(uint16_t, 16)
ATOMIC(uint32_t, 32)
ATOMIC(uint64_t, 64)

// ================================================================ libc memory functions used on shared data
extern "C" {
#define WRAP_ACCESS(p, n, wr) do { if ((n) && active()) access(uintptr_t(p), (n), (wr)); } while (0)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
char* __real_strncpy(char*, const char*, size_t);
char* __real_strcpy(char*, const char*);
int __real_strcmp(const char*, const char*);
size_t __real_strlen(const char*);
void* __wrap_memcpy(void* d, const void* s, size_t n) { WRAP_ACCESS(s, n, false); WRAP_ACCESS(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { WRAP_ACCESS(s, n, false); WRAP_ACCESS(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { WRAP_ACCESS(d, n, true); return __real_memset(d, c, n); }
char* __wrap_strncpy(char* d, const char* s, size_t n) { size_t l = strnlen(s, n); WRAP_ACCESS(s, l < n ? l + 1 : n, false); WRAP_ACCESS(d, n, true); return __real_strncpy(d, s, n); }
char* __wrap_strcpy(char* d, const char* s) { size_t l = __real_strlen(s); WRAP_ACCESS(s, l + 1, false); WRAP_ACCESS(d, l + 1, true); return __real_strcpy(d, s); }
int __wrap_strcmp(const char* a, const char* b) { WRAP_ACCESS(a, __real_strlen(a) + 1, false); WRAP_ACCESS(b, __real_strlen(b) + 1, false); return __real_strcmp(a, b); }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); WRAP_ACCESS(s, n + 1, false); return n; }
// after a point in WRAP_ACCESS the text may have changed: lengths are taken again by the real function
#define WRAP_TEXT(s) WRAP_ACCESS(s, __real_strlen(s) + 1, false)
int __real_memcmp(const void*, const void*, size_t);
void* __real_memchr(const void*, int, size_t);
char* __real_strcat(char*, const char*);
int __real_strncmp(const char*, const char*, size_t);
char* __real_strchr(const char*, int);
char* __real_strdup(const char*);
size_t __real_strftime(char*, size_t, const char*, const struct tm*);
int __real_vsnprintf(char*, size_t, const char*, va_list);
size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
double __real_strtod(const char*, char**);
long __real_strtol(const char*, char**, int);
unsigned long __real_strtoul(const char*, char**, int);
unsigned long long __real_strtoull(const char*, char**, int);
int __wrap_memcmp(const void* a, const void* b, size_t n) { WRAP_ACCESS(a, n, false); WRAP_ACCESS(b, n, false); return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n) { WRAP_ACCESS(a, n, false); return __real_memchr(a, c, n); }
char* __wrap_strcat(char* d, const char* s) { WRAP_TEXT(s); WRAP_ACCESS(d, __real_strlen(d) + __real_strlen(s) + 1, true); return __real_strcat(d, s); }
int __wrap_strncmp(const char* a, const char* b, size_t n) { size_t l = strnlen(a, n), m = strnlen(b, n); WRAP_ACCESS(a, l < n ? l + 1 : n, false); WRAP_ACCESS(b, m < n ? m + 1 : n, false); return __real_strncmp(a, b, n); }
char* __wrap_strchr(const char* s, int c) { WRAP_TEXT(s); return __real_strchr(s, c); }
char* __wrap_strdup(const char* s) { WRAP_TEXT(s); return __real_strdup(s); }
size_t __wrap_strftime(char* d, size_t n, const char* f, const struct tm* t) { WRAP_ACCESS(t, sizeof *t, false); WRAP_ACCESS(d, n, true); return __real_strftime(d, n, f, t); }
int __wrap_vsnprintf(char* d, size_t n, const char* f, va_list ap)
{
  if (n && active()) { va_list c; va_copy(c, ap); int l = __real_vsnprintf(nullptr, 0, f, c); va_end(c); if (l >= 0) WRAP_ACCESS(d, size_t(l) < n ? size_t(l) + 1 : n, true); }
  return __real_vsnprintf(d, n, f, ap);
}
int __wrap_snprintf(char* d, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int __wrap_sprintf(char* d, const char* f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(d, size_t(INT32_MAX), f, ap); va_end(ap); return r; }
size_t __wrap_fread(void* d, size_t s, size_t n, FILE* f) { WRAP_ACCESS(d, s * n, true); return __real_fread(d, s, n, f); }
size_t __wrap_fwrite(const void* d, size_t s, size_t n, FILE* f) { WRAP_ACCESS(d, s * n, false); return __real_fwrite(d, s, n, f); }
double __wrap_strtod(const char* s, char** e) { WRAP_TEXT(s); return __real_strtod(s, e); }
long __wrap_strtol(const char* s, char** e, int b) { WRAP_TEXT(s); return __real_strtol(s, e, b); }
unsigned long __wrap_strtoul(const char* s, char** e, int b) { WRAP_TEXT(s); return __real_strtoul(s, e, b); }
unsigned long long __wrap_strtoull(const char* s, char** e, int b) { WRAP_TEXT(s); return __real_strtoull(s, e, b); }
// zlib is linked by everything, but only some harnesses use it
__attribute__((weak)) int __real_gzwrite(void*, const void*, unsigned);
__attribute__((weak)) int __real_gzread(void*, void*, unsigned);
int __wrap_gzwrite(void* f, const void* d, unsigned n) { WRAP_ACCESS(d, n, false); return __real_gzwrite(f, d, n); }
int __wrap_gzread(void* f, void* d, unsigned n) { WRAP_ACCESS(d, n, true); return __real_gzread(f, d, n); }
}

// list and tree primitives live in the (uninstrumented) C++ library
namespace std { namespace __detail {
struct _List_node_base { _List_node_base *_M_next, *_M_prev;
  static void swap(_List_node_base&, _List_node_base&) noexcept;
  void _M_transfer(_List_node_base*, _List_node_base*) noexcept; void _M_reverse() noexcept;
  void _M_hook(_List_node_base*) noexcept; void _M_unhook() noexcept; };
static inline _List_node_base* ld(_List_node_base*& p) { access(uintptr_t(&p), 8, false); return p; }
static inline void st(_List_node_base*& p, _List_node_base* v) { access(uintptr_t(&p), 8, true); p = v; }
void _List_node_base::_M_hook(_List_node_base* pos) noexcept
{ st(_M_next, pos); st(_M_prev, ld(pos->_M_prev)); _List_node_base* q = ld(pos->_M_prev); st(q->_M_next, this); st(pos->_M_prev, this); }
void _List_node_base::_M_unhook() noexcept
{ _List_node_base* n = ld(_M_next); _List_node_base* p = ld(_M_prev); st(p->_M_next, n); st(n->_M_prev, p); }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept
{
  if (this == l) return;
  st(ld(l->_M_prev)->_M_next, this); st(ld(f->_M_prev)->_M_next, l); st(ld(_M_prev)->_M_next, f);
  _List_node_base* t = ld(_M_prev); st(_M_prev, ld(l->_M_prev)); st(l->_M_prev, ld(f->_M_prev)); st(f->_M_prev, t);
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
  if (x._M_next != &x)
  {
    if (y._M_next != &y)
    {
      std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
    }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}
struct _Rb_tree_node_base;
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
  access(uintptr_t(&h), 32, true); if (p != &h) access(uintptr_t(p), 32, true);
  typedef void (*F)(bool, _Rb_tree_node_base*, _Rb_tree_node_base*, _Rb_tree_node_base&);
  static F f = nullptr; if (!f) f = (F)dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
  f(left, x, p, h);
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* z, _Rb_tree_node_base& h) throw()
{
  access(uintptr_t(&h), 32, true); access(uintptr_t(z), 32, true);
  typedef _Rb_tree_node_base* (*F)(_Rb_tree_node_base*, _Rb_tree_node_base&);
  static F f = nullptr; if (!f) f = (F)dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
  return f(z, h);
}
}

// ================================================================ threads
extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
  REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  if (!w || !w->on) return real_pthread_create(out, attr, fn, arg);
  Rt rt;
  if (w->opt.create_fails && w->used < mc::bound() && mc::choose(2, "thread creation fails")) { ++w->used; mc::trace("   thread creation fails"); return EAGAIN; }
  int t = newFiber(fn, arg);
  int det = 0; if (attr) pthread_attr_getdetachstate(attr, &det);
  w->f[t].detached = attr && det == PTHREAD_CREATE_DETACHED;
  join(w->f[t].vc, me().vc); w->f[t].vc.c[t] = 1; ++me().vc.c[w->cur];
  access(uintptr_t(out), 8, true);
  *out = TID + 1 + pthread_t(t);
  mc::trace("[%d] creates thread %d", w->cur, t);
  schedulePoint("thread created");
  return 0;
}
static bool predDone(void* f, uintptr_t) { return ((Fiber*)f)->state == DONE; }
static int joinImpl(pthread_t p, void** ret, int64_t deadline)
{
  Rt rt;
  int t = tidOf(p);
  if (t < 0) mc::fail("join-invalid", "thread %d joins something that is not a thread", w->cur);
  Fiber& f = w->f[t];
  if (t == w->cur) return EDEADLK;
  if (f.detached || f.joined) mc::fail("join-twice", "thread %d joins thread %d, which was joined or detached before", w->cur, t);
  schedulePoint("join");
  if (f.state != DONE)
  {
    Why y = waitFor({predDone, &f, 0}, deadline, "the end of a thread", true, false);
    if (y == CANCELLED) unwindSelf();
    if (y == TIMEOUT) return ETIMEDOUT;
  }
  f.joined = true;
  join(me().vc, f.vc);
  if (ret) *ret = f.ret;
  return 0;
}
int pthread_join(pthread_t p, void** ret)
{
  REAL(int, pthread_join, pthread_t, void**);
  if (!w || !w->on) return real_pthread_join(p, ret);
  return joinImpl(p, ret, NEVER);
}
int pthread_timedjoin_np(pthread_t p, void** ret, const timespec* t) { return joinImpl(p, ret, ns(t)); }
int pthread_tryjoin_np(pthread_t p, void** ret) { int t = tidOf(p); if (t >= 0 && w->f[t].state != DONE) return EBUSY; return joinImpl(p, ret, NEVER); }
int pthread_detach(pthread_t p)
{
  REAL(int, pthread_detach, pthread_t);
  if (!w || !w->on) return real_pthread_detach(p);
  int t = tidOf(p); if (t < 0) return ESRCH;
  w->f[t].detached = true; return 0;
}
pthread_t pthread_self(void) noexcept
{
  REAL(pthread_t, pthread_self, void);
  if (!w || !w->on) return real_pthread_self();
  return TID + 1 + pthread_t(w->cur);
}
int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
void pthread_exit(void* r)
{
  if (!w || !w->on) _exit(0);
  Fiber& f = me(); (void)f; (void)r;
  unwindSelf();
  abort();
}
int pthread_cancel(pthread_t p)
{
  REAL(int, pthread_cancel, pthread_t);
  if (!w || !w->on) return real_pthread_cancel(p);
  Rt rt;
  int t = tidOf(p); if (t < 0) return ESRCH;
  schedulePoint("cancel");
  if (w->f[t].state != DONE) { w->f[t].cancel = true; mc::trace("[%d] cancels thread %d", w->cur, t); }
  if (t == w->cur) testCancel();
  return 0;
}
void pthread_testcancel(void) { if (!active()) return; Rt rt; schedulePoint("cancellation point"); testCancel(); }
int pthread_setcancelstate(int s, int* o)
{
  if (!w || !w->on) { REAL(int, pthread_setcancelstate, int, int*); return real_pthread_setcancelstate(s, o); }
  if (o) *o = me().cancel_enabled ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE;
  me().cancel_enabled = s == PTHREAD_CANCEL_ENABLE; return 0;
}
int pthread_getschedparam(pthread_t p, int* pol, sched_param* sp) noexcept
{
  if (!w || !w->on) { REAL(int, pthread_getschedparam, pthread_t, int*, sched_param*); return real_pthread_getschedparam(p, pol, sp); }
  if (tidOf(p) < 0) return ESRCH; *pol = 0; sp->sched_priority = 0; return 0;
}
int pthread_setschedparam(pthread_t p, int pol, const sched_param* sp) noexcept
{
  if (!w || !w->on) { REAL(int, pthread_setschedparam, pthread_t, int, const sched_param*); return real_pthread_setschedparam(p, pol, sp); }
  return tidOf(p) < 0 ? ESRCH : sp->sched_priority ? EINVAL : 0;
}
int pthread_setname_np(pthread_t, const char*) noexcept { return 0; }
int sched_yield(void) noexcept
{
  if (!active()) return 0;
  Rt rt; me().spin_count = 0; me().yielded = true; reschedule(false); return 0;
}

// ---------------------------------------------------------------- mutexes
static bool predMutex(void* s, uintptr_t t)
{
  Sync* m = (Sync*)s;
  return m->owner < 0 || (m->owner == int(t) && m->type == PTHREAD_MUTEX_RECURSIVE);
}
// mutexes made before the execution (static objects): adopt their type
static Sync* mutexAt(pthread_mutex_t* p)
{
  uint32_t n = w->nsync; Sync* m = syncAt(p, 1);
  if (w->nsync != n) m->type = p->__data.__kind & 3;
  return m;
}
static void mutexTake(Sync* m) { m->owner = w->cur; ++m->count; acquire(m->vc); }
static int mutexLock(pthread_mutex_t* p, int64_t deadline, bool tr)
{
  Rt rt;
  Sync* m = mutexAt(p);
  pointAt(m, tr ? "trylock" : "lock");
  if (m->owner == w->cur && m->type == PTHREAD_MUTEX_ERRORCHECK && !tr) return EDEADLK;
  if (!predMutex(m, uintptr_t(w->cur)))
  {
    if (tr) return EBUSY;
    ++m->waiters;
    Why y = waitFor({predMutex, m, uintptr_t(w->cur)}, deadline, "a mutex", false, false);
    --m->waiters;
    if (y == TIMEOUT) return ETIMEDOUT;
  }
  mutexTake(m);
  return 0;
}
int pthread_mutex_init(pthread_mutex_t* p, const pthread_mutexattr_t* a) noexcept
{
  REAL(int, pthread_mutex_init, pthread_mutex_t*, const pthread_mutexattr_t*);
  int r = real_pthread_mutex_init(p, a);
  if (!w || !w->on) return r;
  Sync* m = syncAt(p, 1);
  Word k = m->key; memset(m, 0, sizeof *m); m->key = k; m->kind = 1; m->owner = -1; m->first = -1;
  int type = PTHREAD_MUTEX_NORMAL; if (a) pthread_mutexattr_gettype(a, &type);
  m->type = type;
  access(uintptr_t(p), sizeof *p, true);
  return r;
}
int pthread_mutex_destroy(pthread_mutex_t* p) noexcept
{
  REAL(int, pthread_mutex_destroy, pthread_mutex_t*);
  if (!w || !w->on) return real_pthread_mutex_destroy(p);
  Rt rt;
  Sync* m = mutexAt(p);
  pointAt(m, "destroy mutex");
  if (m->waiters) mc::fail("destroyed-in-use", "a mutex is destroyed while a thread waits for it");
  return m->owner >= 0 ? EBUSY : 0;
}
int pthread_mutex_lock(pthread_mutex_t* p) noexcept
{
  REAL(int, pthread_mutex_lock, pthread_mutex_t*);
  if (!w || !w->on || w->rt) return w && w->on ? 0 : real_pthread_mutex_lock(p);
  return mutexLock(p, NEVER, false);
}
int pthread_mutex_trylock(pthread_mutex_t* p) noexcept
{
  REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
  if (!w || !w->on || w->rt) return w && w->on ? 0 : real_pthread_mutex_trylock(p);
  return mutexLock(p, NEVER, true);
}
int pthread_mutex_timedlock(pthread_mutex_t* p, const timespec* t) noexcept
{
  REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const timespec*);
  if (!active()) return real_pthread_mutex_timedlock(p, t);
  Sync* m = mutexAt(p);
  if (badTime(t) && !predMutex(m, uintptr_t(w->cur))) return m->owner == w->cur && m->type == PTHREAD_MUTEX_ERRORCHECK ? EDEADLK : EINVAL;
  return mutexLock(p, ns(t), false);
}
int pthread_mutex_clocklock(pthread_mutex_t* p, clockid_t c, const timespec* t) noexcept
{
  if (!active()) return EINVAL;
  return mutexLock(p, ns(t) + (c == CLOCK_MONOTONIC && ns(t) != NEVER ? MONO_OFFSET : 0), false);
}
int pthread_mutex_unlock(pthread_mutex_t* p) noexcept
{
  REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
  if (!w || !w->on || w->rt) return w && w->on ? 0 : real_pthread_mutex_unlock(p);
  Rt rt;
  Sync* m = mutexAt(p);
  pointAt(m, "unlock");
  if (m->owner != w->cur && (m->type != PTHREAD_MUTEX_NORMAL || m->owner < 0)) return EPERM;
  release(m->vc);
  if (--m->count <= 0) { m->count = 0; m->owner = -1; }
  return 0;
}

// ---------------------------------------------------------------- read/write locks (readers preferred, as glibc's default)
static bool predRd(void* s, uintptr_t) { return ((Sync*)s)->owner < 0; }
static bool predWr(void* s, uintptr_t) { return ((Sync*)s)->owner < 0 && ((Sync*)s)->readers == 0; }
static int rwLock(pthread_rwlock_t* p, bool wr, int64_t deadline, bool tr)
{
  Rt rt;
  Sync* m = syncAt(p, 3);
  pointAt(m, tr ? (wr ? "trywrlock" : "tryrdlock") : wr ? "wrlock" : "rdlock");
  if (m->owner == w->cur) return tr ? EBUSY : EDEADLK;
  bool (*pr)(void*, uintptr_t) = wr ? predWr : predRd;
  if (!pr(m, 0))
  {
    if (tr) return EBUSY;
    ++m->waiters;
    Why y = waitFor({pr, m, 0}, deadline, wr ? "a write lock" : "a read lock", false, false);
    --m->waiters;
    if (y == TIMEOUT) return ETIMEDOUT;
  }
  if (wr) m->owner = w->cur; else { ++m->readers; ++m->rcount[w->cur]; }
  acquire(m->vc);
  return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* p, const pthread_rwlockattr_t*) noexcept
{
  memset(p, 0, sizeof *p);
  if (!w || !w->on) return 0;
  Sync* m = syncAt(p, 3); Word k = m->key; memset(m, 0, sizeof *m); m->key = k; m->kind = 3; m->owner = -1; m->first = -1;
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* p) noexcept
{
  if (!active()) return 0;
  Rt rt; Sync* m = syncAt(p, 3); pointAt(m, "destroy rwlock");
  if (m->waiters) mc::fail("destroyed-in-use", "a read/write lock is destroyed while a thread waits for it");
  return 0;
}
#define RWREAL(name, ...) 
int pthread_rwlock_rdlock(pthread_rwlock_t* p) noexcept { if (!active()) { REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*); return w && w->on ? 0 : real_pthread_rwlock_rdlock(p); } return rwLock(p, false, NEVER, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* p) noexcept { if (!active()) { REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*); return w && w->on ? 0 : real_pthread_rwlock_wrlock(p); } return rwLock(p, true, NEVER, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) noexcept { return active() ? rwLock(p, false, NEVER, true) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* p) noexcept { return active() ? rwLock(p, true, NEVER, true) : 0; }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* p, const timespec* t) noexcept { if (!active()) return 0; return badTime(t) ? EINVAL : rwLock(p, false, ns(t), false); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* p, const timespec* t) noexcept { if (!active()) return 0; return badTime(t) ? EINVAL : rwLock(p, true, ns(t), false); }
static int64_t clk(clockid_t c, const timespec* t) { int64_t n = ns(t); return n == NEVER ? n : n + (c == CLOCK_MONOTONIC ? MONO_OFFSET : 0); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* p, clockid_t c, const timespec* t) noexcept { return active() ? rwLock(p, false, clk(c, t), false) : 0; }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* p, clockid_t c, const timespec* t) noexcept { return active() ? rwLock(p, true, clk(c, t), false) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* p) noexcept
{
  if (!active()) { REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*); return w && w->on ? 0 : real_pthread_rwlock_unlock(p); }
  Rt rt;
  Sync* m = syncAt(p, 3);
  pointAt(m, "rwunlock");
  release(m->vc);
  if (m->owner == w->cur) m->owner = -1;
  else if (m->readers > 0) { --m->readers; if (m->rcount[w->cur]) --m->rcount[w->cur]; }
  else mc::fail("unlock-free", "thread %d unlocks a read/write lock that is not locked", w->cur);
  return 0;
}

// ---------------------------------------------------------------- condition variables
struct CondWait { Sync* c; uint64_t ticket; };
static bool predCond(void* s, uintptr_t tk) { return ((Sync*)s)->ticket > tk; }
int pthread_cond_init(pthread_cond_t* p, const pthread_condattr_t*) noexcept
{
  memset(p, 0, sizeof *p);
  if (!w || !w->on) return 0;
  Sync* m = syncAt(p, 4); Word k = m->key; memset(m, 0, sizeof *m); m->key = k; m->kind = 4; m->owner = -1; m->first = -1; return 0;
}
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
static int condWait(pthread_cond_t* p, pthread_mutex_t* mp, int64_t deadline)
{
  Rt rt;
  Sync* c = syncAt(p, 4); Sync* m = mutexAt(mp);
  pointAt(c, "wait for a condition");
  int cnt = m->count; m->count = 0; m->owner = -1; release(m->vc);
  uint64_t tk = c->value++;                         // my position in the queue
  Why y = waitFor({predCond, c, uintptr_t(tk)}, deadline, "a condition", true, false);
  if (y == TIMEOUT && c->ticket < c->value) { /* leaves the queue */ }
  if (!predMutex(m, uintptr_t(w->cur))) waitFor({predMutex, m, uintptr_t(w->cur)}, NEVER, "a mutex", false, false);
  m->owner = w->cur; m->count = cnt; acquire(m->vc); acquire(c->vc);
  if (y == CANCELLED) unwindSelf();
  return y == TIMEOUT ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* p, pthread_mutex_t* m) { return active() ? condWait(p, m, NEVER) : 0; }
int pthread_cond_timedwait(pthread_cond_t* p, pthread_mutex_t* m, const timespec* t) { return active() ? condWait(p, m, ns(t)) : 0; }
int pthread_cond_clockwait(pthread_cond_t* p, pthread_mutex_t* m, clockid_t c, const timespec* t) { return active() ? condWait(p, m, clk(c, t)) : 0; }
int pthread_cond_signal(pthread_cond_t* p) noexcept
{
  if (!active()) return 0;
  Rt rt; Sync* c = syncAt(p, 4); pointAt(c, "signal"); release(c->vc); if (c->ticket < c->value) ++c->ticket; return 0;
}
int pthread_cond_broadcast(pthread_cond_t* p) noexcept
{
  if (!active()) return 0;
  Rt rt; Sync* c = syncAt(p, 4); pointAt(c, "broadcast"); release(c->vc); c->ticket = c->value; return 0;
}

// ---------------------------------------------------------------- semaphores
static bool predSem(void* s, uintptr_t) { return ((Sync*)s)->value > 0; }
int sem_init(sem_t* p, int, unsigned v) noexcept
{
  memset(p, 0, sizeof *p);
  if (!w || !w->on) { REAL(int, sem_init, sem_t*, int, unsigned); return real_sem_init(p, 0, v); }
  Rt rt;
  Sync* m = syncAt(p, 2); Word k = m->key; memset(m, 0, sizeof *m); m->key = k; m->kind = 2; m->owner = -1; m->first = -1; m->value = v;
  return 0;
}
int sem_destroy(sem_t* p) noexcept
{
  if (!active()) return 0;
  Rt rt; Sync* m = syncAt(p, 2); pointAt(m, "destroy semaphore");
  if (m->waiters) mc::fail("destroyed-in-use", "a semaphore is destroyed while a thread waits for it");
  return 0;
}
// semaphores made before the execution (static objects): adopt their value
static Sync* semAt(sem_t* p)
{
  uint32_t n = w->nsync; Sync* m = syncAt(p, 2);
  if (w->nsync != n) { REAL(int, sem_getvalue, sem_t*, int*); int v = 0; real_sem_getvalue(p, &v); m->value = unsigned(v); }
  return m;
}
static int semWait(sem_t* p, int64_t deadline, bool tr)
{
  Rt rt;
  Sync* m = semAt(p);
  pointAt(m, tr ? "trywait" : "wait");
  if (!tr) testCancel();
  if (m->value == 0)
  {
    if (tr) { errno = EAGAIN; return -1; }
    ++m->waiters;
    Why y = waitFor({predSem, m, 0}, deadline, "a semaphore", true, true);
    --m->waiters;
    if (y == CANCELLED) unwindSelf();
    if (y == TIMEOUT) { errno = ETIMEDOUT; return -1; }
    if (y == INTR) { errno = EINTR; return -1; }
  }
  --m->value; acquire(m->vc);
  return 0;
}
int sem_wait(sem_t* p) { if (!active()) { REAL(int, sem_wait, sem_t*); return w && w->on ? 0 : real_sem_wait(p); } return semWait(p, NEVER, false); }
int sem_trywait(sem_t* p) noexcept { if (!active()) { REAL(int, sem_trywait, sem_t*); return w && w->on ? 0 : real_sem_trywait(p); } return semWait(p, NEVER, true); }
int sem_timedwait(sem_t* p, const timespec* t)
{
  if (!active()) return 0;
  if (badTime(t)) { errno = EINVAL; return -1; }
  return semWait(p, ns(t), false);
}
int sem_clockwait(sem_t* p, clockid_t c, const timespec* t) { return active() ? semWait(p, clk(c, t), false) : 0; }
int sem_post(sem_t* p) noexcept
{
  if (!active()) { REAL(int, sem_post, sem_t*); return w && w->on ? 0 : real_sem_post(p); }
  Rt rt; Sync* m = semAt(p); pointAt(m, "post"); release(m->vc); ++m->value; return 0;
}
int sem_getvalue(sem_t* p, int* v) noexcept
{
  if (!active()) { REAL(int, sem_getvalue, sem_t*, int*); return real_sem_getvalue(p, v); }
  Rt rt; Sync* m = semAt(p); pointAt(m, "getvalue"); *v = int(m->value); return 0;
}

// ---------------------------------------------------------------- once and guarded statics
static bool predOnce(void* s, uintptr_t) { return ((Sync*)s)->type != 1; }
int __cxa_guard_acquire(long long* gp)
{
  char* g = (char*)gp;
  if (!active()) return *g == 0;
  Rt rt;
  Sync* s = syncAt(g, 5);
  pointAt(s, "guard");
  for (;;)
  {
    if (*g) { acquire(s->vc); return 0; }
    if (s->type == 0) { s->type = 1; s->owner = w->cur; return 1; }
    if (s->owner == w->cur) mc::fail("recursive-initialisation", "thread %d initialises a static object recursively", w->cur);
    waitFor({predOnce, s, 0}, NEVER, "the initialisation of a static object", false, false);
  }
}
void __cxa_guard_release(long long* gp)
{
  char* g = (char*)gp;
  if (!w || !w->on) { *g = 1; return; }
  Rt rt; Sync* s = syncAt(g, 5); pointAt(s, "guard release"); s->type = 2; *g = 1; release(s->vc);
}
void __cxa_guard_abort(long long* gp) { if (!w || !w->on) return; Rt rt; Sync* s = syncAt(gp, 5); s->type = 0; }
int pthread_once(pthread_once_t* o, void (*fn)())
{
  if (!active()) { if (*(int*)o == 0) { *(int*)o = 2; fn(); } return 0; }
  Sync* s; bool mine = false;
  {
    Rt rt; s = syncAt(o, 5); pointAt(s, "once");
    if (*(int*)o == 2) s->type = 2;
    if (s->type == 0) { s->type = 1; s->owner = w->cur; mine = true; }
    else if (s->type == 1) waitFor({predOnce, s, 0}, NEVER, "an initialisation", false, false);
    if (!mine) acquire(s->vc);
  }
  if (mine) { fn(); Rt rt; pointAt(s, "once done"); s->type = 2; *(int*)o = 2; release(s->vc); }
  return 0;
}

// ---------------------------------------------------------------- time
static int sleepFor(int64_t n, int64_t* left)
{
  Rt rt;
  me().spin_count = 0;
  schedulePoint("sleep");
  testCancel();
  int64_t until = w->clock + (n > 0 ? n : 0);
  Why y = waitFor({nullptr, nullptr, 0}, until, "time to pass", true, false);
  if (y == CANCELLED) unwindSelf();
  if (left) *left = 0;
  return 0;
}
int usleep(useconds_t us)
{
  if (!active()) { timespec t = {us / 1000000, long(us % 1000000) * 1000}; syscall(SYS_nanosleep, &t, nullptr); return 0; }
  return sleepFor(int64_t(us) * 1000, nullptr);
}
unsigned sleep(unsigned s)
{
  if (!active()) { timespec t = {s, 0}; syscall(SYS_nanosleep, &t, nullptr); return 0; }
  sleepFor(int64_t(s) * 1000000000, nullptr); return 0;
}
int nanosleep(const timespec* t, timespec* rem)
{
  if (!active()) return int(syscall(SYS_nanosleep, t, rem));
  if (badTime(t) || t->tv_sec < 0) { errno = EINVAL; return -1; }
  return sleepFor(ns(t), nullptr);
}
int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec*)
{
  if (!active()) return EINVAL;
  if (badTime(t)) return EINVAL;
  return sleepFor(flags & TIMER_ABSTIME ? clk(c, t) - w->clock : ns(t), nullptr);
}
int clock_gettime(clockid_t c, timespec* t) noexcept
{
  if (!w || !w->on || c == CLOCK_MONOTONIC_RAW) return int(syscall(SYS_clock_gettime, c, t));
  int64_t v = w->clock - (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? 0 : MONO_OFFSET);
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
}
int gettimeofday(timeval* t, void*) noexcept
{
  timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0;
}
time_t time(time_t* o) noexcept { timespec s; clock_gettime(CLOCK_REALTIME, &s); if (o) *o = s.tv_sec; return s.tv_sec; }

// ---------------------------------------------------------------- timer descriptors
static const int FDBASE = 100000;
static Fd* fdOf(int fd) { return w && fd >= FDBASE && fd < FDBASE + w->nfd && w->fd[fd - FDBASE].used ? &w->fd[fd - FDBASE] : nullptr; }
int timerfd_create(clockid_t, int flags) noexcept
{
  if (!w || !w->on) { errno = EMFILE; return -1; }
  int i = 0; while (i < w->nfd && w->fd[i].used) ++i;
  if (i == 64) { errno = EMFILE; return -1; }
  if (i == w->nfd) ++w->nfd;
  memset(&w->fd[i], 0, sizeof(Fd)); w->fd[i].used = true; w->fd[i].flags = flags;
  return FDBASE + i;
}
static void fdGet(Fd* f, itimerspec* o)
{
  int64_t left = 0;
  if (f->armed)
  {
    left = f->next - w->clock;
    if (left <= 0) left = f->interval ? f->interval - (-left % f->interval) : 0;
  }
  o->it_value.tv_sec = left / 1000000000; o->it_value.tv_nsec = left % 1000000000;
  o->it_interval.tv_sec = f->interval / 1000000000; o->it_interval.tv_nsec = f->interval % 1000000000;
}
int timerfd_settime(int fd, int flags, const itimerspec* n, itimerspec* o) noexcept
{
  Fd* f = fdOf(fd); if (!f) { errno = EBADF; return -1; }
  if (badTime(&n->it_value) || badTime(&n->it_interval) || n->it_value.tv_sec < 0 || n->it_interval.tv_sec < 0) { errno = EINVAL; return -1; }
  if (o) fdGet(f, o);
  int64_t v = ns(&n->it_value);
  f->armed = v != 0; f->interval = ns(&n->it_interval);
  f->next = flags & TFD_TIMER_ABSTIME ? v : w->clock + v;
  for (int i = 0; i < w->n; ++i) if (w->f[i].state == WAIT && w->f[i].pred.a == f) w->f[i].deadline = f->armed ? f->next : NEVER;
  return 0;
}
int timerfd_gettime(int fd, itimerspec* o) noexcept { Fd* f = fdOf(fd); if (!f) { errno = EBADF; return -1; } fdGet(f, o); return 0; }
static bool predFd(void* p, uintptr_t) { Fd* f = (Fd*)p; return !f->used || (f->armed && f->next <= w->clock); }
ssize_t read(int fd, void* b, size_t n)
{
  if (!active() || fd < FDBASE) return syscall(SYS_read, fd, b, n);
  Rt rt;
  Fd* f = fdOf(fd);
  if (!f) { errno = EBADF; return -1; }
  if (n < 8) { errno = EINVAL; return -1; }
  schedulePoint("timer read");
  testCancel();
  while (!predFd(f, 0))
  {
    if (f->flags & TFD_NONBLOCK) { errno = EAGAIN; return -1; }
    // the wake-up time is the timer's; re-arming while waiting is seen through the predicate
    Why y = waitFor({predFd, f, 0}, f->armed ? f->next : NEVER, "a timer", true, true);
    if (y == CANCELLED) unwindSelf();
    if (y == INTR) { errno = EINTR; return -1; }
  }
  if (!f->used) { errno = EBADF; return -1; }
  uint64_t k = 1;
  if (f->interval) { k += uint64_t((w->clock - f->next) / f->interval); f->next += int64_t(k) * f->interval; }
  else f->armed = false;
  memcpy(b, &k, 8);
  return 8;
}
int close(int fd)
{
  if (fd < FDBASE) return int(syscall(SYS_close, fd));
  Fd* f = fdOf(fd); if (!f) { errno = EBADF; return -1; }
  f->used = false; return 0;
}
} // extern "C"
