// Included twice, with N(current, old) choosing the spelling. The second inclusion repeats the choices of the first one.
static string mutexes(Script& in)
{
  Out o; tt::Mutex m; int held = in.choose(2, "held by another thread"); th::Threads t;
  if (held) { t.start([&] { m.lock(); usleep(20000); m.unlock(); }); usleep(1000); }
  for (int i = 0; i < 2; ++i)
  {
    bool ok = false;
    switch (in.choose(7, "acquire"))
    {
      case 0: ok = m.N(lock, Lock)(); break;
      case 1: ok = m.N(tryLock, TryLock)(); break;
      case 2: ok = m.N(lock, Lock)(span(10 * MS)); break;
      case 3: ok = m.N(lock, Lock)(span(30 * MS)); break;
      case 4: ok = m.N(lock, Lock)(stamp(10 * MS)); break;
      case 5: ok = m.N(lock, Lock)(stamp(30 * MS)); break;
      case 6: { tt::ScopedMutexLock l(m, in.choose(2, "force") == 0); o << l.N(isLocked, IsLocked)(); break; }
    }
    o << ok << at(); if (ok) m.N(unlock, Unlock)(); o << m.tryLock(); m.unlock();
  }
  t.join(); o << at(); return o.text();
}
static string rwlocks(Script& in)
{
  Out o; tt::RWLock m; int held = in.choose(3, "held by another thread"); th::Threads t;
  if (held) { t.start([&] { if (held == 1) m.readLock(); else m.writeLock(); usleep(20000); m.unlock(); }); usleep(1000); }
  for (int i = 0; i < (mc::thorough() ? 2 : 1); ++i)
  {
    bool ok = false;
    switch (in.choose(14, "acquire"))
    {
      case 0: ok = m.N(readLock, ReadLock)(); break;
      case 1: ok = m.N(tryReadLock, TryReadLock)(); break;
      case 2: ok = m.N(readLock, ReadLock)(span(10 * MS)); break;
      case 3: ok = m.N(readLock, ReadLock)(span(30 * MS)); break;
      case 4: ok = m.N(readLock, ReadLock)(stamp(10 * MS)); break;
      case 5: ok = m.N(readLock, ReadLock)(stamp(30 * MS)); break;
      case 6: ok = m.N(writeLock, WriteLock)(); break;
      case 7: ok = m.N(tryWriteLock, TryWriteLock)(); break;
      case 8: ok = m.N(writeLock, WriteLock)(span(10 * MS)); break;
      case 9: ok = m.N(writeLock, WriteLock)(span(30 * MS)); break;
      case 10: ok = m.N(writeLock, WriteLock)(stamp(10 * MS)); break;
      case 11: ok = m.N(writeLock, WriteLock)(stamp(30 * MS)); break;
      case 12: { tt::ScopedRWLock l(m, tt::ScopedRWLock::eLM_READ_LOCK, in.choose(2, "force") == 0); o << l.N(isLocked, IsLocked)(); break; }
      case 13: { tt::ScopedRWLock l(m, tt::ScopedRWLock::eLM_WRITE_LOCK, in.choose(2, "force") == 0); o << l.N(isLocked, IsLocked)(); break; }
    }
    o << ok << at();
    // what another thread may take now, and after the release
    th::Threads w; auto probe = [&] { w.start([&] { bool r = m.tryReadLock(); if (r) m.unlock(); bool x = m.tryWriteLock(); if (x) m.unlock(); o << r << x; }); w.join(); };
    probe(); if (ok) m.N(unlock, Unlock)(); probe();
  }
  t.join(); o << at(); return o.text();
}
static string semaphores(Script& in)
{
  Out o; tt::Semaphore s(size_t(in.choose(3, "units"))); th::Threads t; int late = in.choose(2, "posted later");
  if (late) t.start([&] { usleep(20000); s.N(post, Post)(); s.N(post, Post)(); s.N(post, Post)(); });
  for (int i = 0; i < (mc::thorough() ? 3 : 2); ++i)
  {
    switch (in.choose(8, "operation"))
    {
      case 0: s.N(post, Post)(); break;
      case 1: o << s.N(tryWait, TryWait)(); break;
      case 2: if (late) o << s.N(wait, Wait)(); break;
      case 3: o << s.N(wait, Wait)(span(9 * MS)); break;
      case 4: o << s.N(wait, Wait)(span(28 * MS)); break;
      case 5: o << s.N(wait, Wait)(stamp(9 * MS)); break;
      case 6: o << s.N(wait, Wait)(stamp(28 * MS)); break;
      case 7: o << s.N(wait, Wait)(span(0)); break;
    }
    o << at();
  }
  t.join(); int left = 0; while (s.tryWait()) ++left; o << left; return o.text();
}
static string timeouts(Script& in)
{
  Out o; static const int64_t D[] = { 0, 1, 999999999, 1000000000, 3600000000000ll, -1, -1000000000 }; int64_t d = D[in.choose(7, "duration")];
  TimeSpan r = tt::impl::N(getRelativeTimeout, GetRelativeTimeout)(stamp(d)); o << r.tsSec() << r.tsNSec(); o << rel(tt::impl::N(getAbsoluteTimeout, GetAbsoluteTimeout)(span(d))); return o.text();
}
struct Worker : public tt::Thread
{
  int kind; int passes = 0; bool self = false, same = false, hard = false;
  Worker(int kind) : tt::Thread("name", 3), kind(kind) { }
  ~Worker() { stop(); join(); }
  virtual void run()
  {
    self = N(threadSelf, ThreadSelf)(); same = tt::Thread::N(selfId, SelfId)() == N(threadId, ThreadId)(); hard = N(checkHardRealtime, CheckHardRealtime)();
    if (kind == 0) return; while (N(execute, Execute)() && passes < 40) { ++passes; usleep(7300); }
  }
};
static string threads(Script& in)
{
  Out o; int kind = in.choose(2, "kind"); std::unique_ptr<Worker> w(new Worker(kind));
  auto info = [&] { string i = w->N(threadInfo, ThreadInfo)(); o << i.substr(0, i.find(',')); }; info();
  for (int i = 0; i < (mc::thorough() ? 4 : 3); ++i)
  {
    switch (in.choose(12, "operation"))
    {
      case 0: o << w->N(start, Start)(); break;
      case 1: w->N(stop, Stop)(); break;
      case 2: if (kind == 0 || !w->execute()) w->N(join, Join)(); else { w->stop(); w->N(join, Join)(); } break;
      case 3: o << w->N(wait, Wait)(span(10 * MS)); break;
      case 4: o << w->N(wait, Wait)(stamp(15 * MS)); break;
      case 5: if (!w->execute()) o << w->N(wait, Wait)(); break;
      case 6: o << w->N(execute, Execute)() << w->N(running, Running)() << w->N(threadSelf, ThreadSelf)() << (w->N(threadId, ThreadId)() == tt::Thread::selfId()) << (tt::Thread::N(selfId, SelfId)() == icl_core::os::threadSelf()); break;
      case 7: w->N(setDescription, SetDescription)("other"); o << w->N(getDescription, Description)(); info(); break;
      case 8: o << w->N(priority, Priority)() << w->N(setPriority, SetPriority)(1) << w->N(priority, Priority)(); break;
      case 9: o << w->N(isHardRealtime, IsHardRealtime)() << w->N(executesHardRealtime, ExecutesHardRealtime)() << w->N(setHardRealtime, SetHardRealtime)() << w->N(isHardRealtime, IsHardRealtime)() << w->N(setHardRealtime, SetHardRealtime)(false) << w->N(setHardRealtime, SetHardRealtime)(true) << w->N(checkHardRealtime, CheckHardRealtime)(); break;
      case 10: if (!w->running()) o << w->getDescription(); break;
      case 11: if (w->running()) { w->N(cancel, Cancel)(); w->join(); } break;
    }
    o << at() << w->running() << w->execute() << w->passes;
  }
  w->stop(); w->join(); o << w->self << w->same << w->hard << w->passes << w->N(running, Running)(); info(); return o.text();
}
struct Beat : public tt::PeriodicThread
{
  vector<string> when; int n; bool ok;
  Beat(const TimeSpan& p, int n) : tt::PeriodicThread("beat", p), n(n), ok(false) { }
  ~Beat() { stop(); join(); }
  virtual void run() { for (int i = 0; i < n && execute(); ++i) { N(waitPeriod, WaitPeriod)(); sched::Quiet q; when.push_back(at()); if (i == 1) usleep(25000); if (i == 2) ok = N(setPeriod, SetPeriod)(span(4 * MS)); } }
};
static string periodic(Script& in)
{
  Out o; static const int64_t P[] = { 1 * MS, 10 * MS, 1500 * MS }; int64_t p = P[in.choose(3, "period")], q = P[in.choose(3, "new period")]; int change = in.choose(3, "changed"); Beat b(span(p), 6);
  auto period = [&] { TimeSpan t = b.N(period, Period)(); o << t.tsSec() << t.tsNSec(); };
  period(); if (change == 1) { o << b.N(setPeriod, SetPeriod)(span(q)); period(); }
  b.start(); if (change == 2) { usleep(2500); o << b.N(setPeriod, SetPeriod)(span(q)); period(); }
  b.join(); o << b.when << b.ok << at(); period(); return o.text();
}
struct Act : public tt::ActiveOperation { int* n; Act(int* n) : n(n) { } virtual void invoke() { usleep(5300); ++*n; } };
struct Actor : public tt::ActiveObject { Actor() : tt::ActiveObject("actor") { start(); } ~Actor() { stop(); join(); } void add(int* n) { queue(new Act(n)); } void halt() { N(stop, Stop)(); } };
static string active(Script& in)
{
  Out o; int n = 0, before = in.choose(3, "operations"), pause = in.choose(2, "pause"), twice = in.choose(2, "stopped twice");
  { Actor a; for (int i = 0; i < before; ++i) a.add(&n); if (pause) usleep(20000); a.halt(); o << at() << n; if (twice) a.halt(); a.add(&n); usleep(20000); o << n; }
  o << n << at(); return o.text();
}
