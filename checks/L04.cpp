// L04: shutting logging down writes every pending message and ends.
#include "loggingsched.h"
using namespace lg;
using std::string;

DECLARE_LOG_STREAM(Alpha)
REGISTER_LOG_STREAM(Alpha)
REGISTER_LOG_OUTPUT_STREAM(Direct, &ls::create<false>)
REGISTER_LOG_OUTPUT_STREAM(Worker, &ls::create<true>)

//! std::cout goes here (the default output writes to it).
struct Capture : std::streambuf
{
  string text; std::streambuf* old;
  Capture() { sched::Quiet q; text.reserve(8192); old = std::cout.rdbuf(this); }
  ~Capture() { sched::Quiet q; std::cout.rdbuf(old); }
  int_type overflow(int_type c) { sched::Quiet q; if (c != EOF) text += char(c); return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) { sched::Quiet q; text.append(s, size_t(n)); return n; }
};
static int g_logged;
static void say(int n = 1)
{
  for (int i = 0; i < n; ++i)
  {
    char a[8]; { sched::Quiet q; snprintf(a, sizeof a, "m%d", g_logged++); sched::trace("logging %s", a); }
    LOGGING_LOG(Alpha, eLL_INFO, a << flush);
  }
}
static void out(const char* entry, const char* kind, const char* name)
{
  string e = string("/IclCore/Logging/OutputStream") + entry;
  icl_core::config::setValue(e + "/OutputStreamName", string(kind)); icl_core::config::setValue(e + "/Name", string(name)); icl_core::config::setValue(e + "/LogLevel", string("Info"));
}
static void begin(bool direct, bool worker)
{
  sched::Quiet q;
  memset(ls::g_box, 0, sizeof ls::g_box); g_logged = 0;
  if (direct) out("A", "Direct", "One");
  if (worker) out("B", "Worker", "Two");
}
//! Everything logged so far has been written once and in order, the outputs are gone.
static void settled(int box, bool worker, int msgs = -1)
{
  sched::Quiet q;
  ls::Box& b = ls::g_box[box]; if (msgs < 0) msgs = g_logged;
  for (int i = 0; i < b.n || i < msgs; ++i)
  {
    MC_CHECK(i < b.n, "lost", "after the shutdown output %d has %d of %d messages: %s", box, b.n, msgs, b.str().c_str());
    MC_CHECK(b.seen[i].text == mc::format("m%d", i), "content", "output %d has %s, expected m0 to m%d", box, b.str().c_str(), msgs - 1);
  }
  MC_CHECK(!b.alive, "alive", "output %d still exists after the shutdown", box);
  MC_CHECK(b.starts == b.ends, "ended", "the worker of output %d has started %d and ended %d times", box, b.starts, b.ends);
  MC_CHECK(worker || b.starts == 0, "ended", "a worker for output %d", box);
}
static void gone(const char* when)
{
  sched::Quiet q;
  MC_CHECK(sched::alive() == 0, "threads", "%d threads are left %s", sched::alive(), when);
  MC_CHECK(sched::unjoined() == 0, "joined", "%d threads were not joined %s", sched::unjoined(), when);
}
static void pending(bool direct, bool worker, int msgs)
{
  Capture c;
  begin(direct, worker);
  icl_core::logging::initialize();
  say(msgs);
  icl_core::logging::shutdown();
  if (direct) settled(0, false);
  if (worker) settled(1, true);
  gone("after the shutdown");
}
static void producers(int n)
{
  Capture c;
  begin(false, true);
  icl_core::logging::initialize();
  { th::Threads t; for (int p = 1; p <= n; ++p) t.start([] { say(); }); t.join(); }
  icl_core::logging::shutdown();
  sched::Quiet q;
  ls::Box& b = ls::g_box[1]; int mask = 0;
  for (int i = 0; i < b.n; ++i) { int k = b.seen[i].text[1] - '0'; MC_CHECK(k >= 0 && k < n && !(mask & 1 << k), "content", "the output has %s", b.str().c_str()); mask |= 1 << k; }
  MC_CHECK(b.n == n, "lost", "the output has %d of %d messages", b.n, n);
  MC_CHECK(!b.alive && b.starts == 1 && b.ends == 1, "ended", "worker started %d, ended %d times", b.starts, b.ends);
  gone("after the shutdown");
}
//! Initialising, logging and shutting down in any order; a message logged while there is no logging brings it up.
static void history(int ops, bool direct, bool worker)
{
  Capture c;
  begin(direct, worker);
  for (int i = 0; i < ops; ++i)
    switch (mc::choose(4, "operation"))
    {
    case 0: sched::trace("initialize"); icl_core::logging::initialize(); break;
    case 1: say(); break;
    case 2: sched::trace("shutdown"); icl_core::logging::shutdown(); if (direct) settled(0, false); if (worker) settled(1, true); gone("after a shutdown"); break;
    case 3: sched::trace("log level"); LoggingManager::instance().setLogLevel(eLL_INFO); break;
    }
  sched::trace("last shutdown"); icl_core::logging::shutdown();
  if (direct) settled(0, false);
  if (worker) settled(1, true);
  gone("at the end");
}
//! Cycles leave nothing behind.
static void cycles()
{
  Capture c;
  begin(true, true);
  size_t before = 0;
  for (int i = 0; i < 3; ++i)
  {
    icl_core::logging::initialize();
    say();
    icl_core::logging::shutdown();
    settled(0, false); settled(1, true); gone("after a shutdown");
    sched::Quiet q;
    if (i == 1) before = sched::liveBlocks();
    if (i == 2) MC_CHECK(sched::liveBlocks() == before, "leak", "%zu blocks are live after the third shutdown, %zu after the second", sched::liveBlocks(), before);
  }
}
static void lifecycle()
{
  Capture c;
  begin(true, true);
  char name[] = "program"; char* argv[] = { name, nullptr }; int argc = 1;
  { icl_core::logging::LifeCycle l(argc, argv); say(2); }
  settled(0, false); settled(1, true); gone("after the life cycle");
}
//! The default output (used when none is configured) writes to the standard output.
static void standard(int msgs)
{
  Capture c;
  begin(false, false);
  icl_core::logging::initialize();
  for (int i = 0; i < msgs; ++i) { char a[8]; { sched::Quiet q; snprintf(a, sizeof a, "[m%d]", i); } LOGGING_LOG(Alpha, eLL_INFO, a << flush); }
  icl_core::logging::shutdown();
  gone("after the shutdown");
  sched::Quiet q;
  string got; for (size_t p = 0; (p = c.text.find('[', p)) != string::npos; ++p) got += c.text.substr(p, 4);
  string want; for (int i = 0; i < msgs; ++i) want += mc::format("[m%d]", i);
  MC_CHECK(got == want, "lost", "the standard output has %s, expected %s", mc::quote(c.text).c_str(), want.c_str());
}
//! An output the user starts and stops himself, any short history of it.
static void own(int ops)
{
  Capture c;
  begin(true, false);
  icl_core::logging::initialize();
  ls::Sink* o = new ls::Sink("Three", "", eLL_TRACE, true);
  Alpha::instance().addOutputStream(o);
  ls::Box& b = ls::g_box[2]; int starts = 0; bool running = false;
  for (int i = 0; i <= ops; ++i)
    switch (i == ops ? 2 : mc::choose(3, "operation"))
    {
    case 0: sched::trace("start"); o->start(); if (!running) { running = true; ++starts; } break;
    case 1: say(); break;
    case 2:
    {
      sched::trace("shutdown"); o->shutdown(); bool wrote = running; running = false;
      sched::Quiet q;
      MC_CHECK(b.starts == starts && b.ends == starts, "ended", "after shutdown: worker started %d (expected %d), ended %d times", b.starts, starts, b.ends);
      if (wrote) { MC_CHECK(b.n == g_logged, "lost", "after the shutdown the output has %d of %d messages: %s", b.n, g_logged, b.str().c_str()); gone("after the shutdown"); }
      break;
    }
    }
  { sched::Quiet q; for (int i = 0; i < b.n; ++i) MC_CHECK(b.seen[i].text == mc::format("m%d", i), "content", "the output has %s", b.str().c_str()); }
  Alpha::instance().removeOutputStream(o);
  delete o;
  icl_core::logging::shutdown();
  settled(0, false); gone("at the end");
}
int main(int argc, char** argv)
{
  setenv("TZ", "UTC", 1);
  sched::Options sig; sig.interrupts = true;
  bool thorough = false; for (int i = 1; i < argc; ++i) thorough |= string(argv[i]) == "--thorough";
  typedef std::vector<int> V; const V deep = { 0, 1, 2, 3 }, more = thorough ? deep : V{ 0, 1, 2 }, flat = thorough ? V{ 0, 1, 2 } : V{ 0, 1 }, zero = { 0 };
  return mc::run(argc, argv, {
    sched::scenario("nothing", [] { pending(false, true, 0); }, deep),
    sched::scenario("one", [] { pending(false, true, 1); }, more),
    sched::scenario("three", [] { pending(false, true, 3); }, more),
    sched::scenario("both", [] { pending(true, true, 2); }, more),
    sched::scenario("signals", [] { pending(false, true, 2); }, more, sig),
    sched::scenario("producers", [] { producers(2); }, flat),
    sched::scenario("standard", [] { standard(2); }, more),
    sched::scenario("lifecycle", lifecycle, more),
    sched::scenario("cycles", cycles, more),
    sched::scenario("own", [thorough] { own(5); }, flat),
    sched::scenario("histories-direct", [thorough] { history(thorough ? 8 : 6, true, false); }, zero),
    sched::scenario("histories", [thorough] { history(thorough ? 7 : 5, false, true); }, zero),
    sched::scenario("histories-schedules", [thorough] { history(4, false, true); }, flat) });
}
