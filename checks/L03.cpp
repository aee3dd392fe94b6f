// L03: logging from several threads loses, mixes and reorders nothing.
#include "loggingsched.h"
using namespace lg;
using std::string;

DECLARE_LOG_STREAM(Alpha)
DECLARE_LOG_STREAM(Beta)
REGISTER_LOG_STREAM(Alpha)
REGISTER_LOG_STREAM(Beta)
REGISTER_LOG_OUTPUT_STREAM(Direct, &ls::create<false>)
REGISTER_LOG_OUTPUT_STREAM(Worker, &ls::create<true>)

// Producer p logs the messages "p<p>m<i>" with origin "K<p>"; every message has to reach every output of its stream once.
static void say(int p, int i, int how, bool beta)
{
  char a[4], b[8], o[8];
  { sched::Quiet q; snprintf(a, sizeof a, "p%d", p); snprintf(b, sizeof b, "m%d", i); snprintf(o, sizeof o, "o%d", p); sched::trace("thread %d logs message %d", p, i); }
  LogStream& s = beta ? Beta::instance() : Alpha::instance();
  switch (how)
  {
  case 0: if (p == 1) { SLOGGING_LOG_CO(s, eLL_INFO, K1, o, a << b << flush); } else { SLOGGING_LOG_CO(s, eLL_INFO, K2, o, a << b << flush); } break;
  case 1: if (p == 1) { SLOGGING_FMT_LOG_CO(s, eLL_INFO, K1, o, "%s%s", a, b); } else { SLOGGING_FMT_LOG_CO(s, eLL_INFO, K2, o, "%s%s", a, b); } break;
  case 2:     // a message in two statements
    if (p == 1) { SLOGGING_LOG_CO(s, eLL_INFO, K1, o, a); SLOGGING_LOG_CO(s, eLL_INFO, K1, o, b << flush); }
    else { SLOGGING_LOG_CO(s, eLL_INFO, K2, o, a); SLOGGING_LOG_CO(s, eLL_INFO, K2, o, b << flush); }
    break;
  }
}
static void verify(int box, int producers, int msgs, bool ordered = true)
{
  sched::Quiet q;
  ls::Box& b = ls::g_box[box]; int next[4] = { 0, 0, 0, 0 };
  for (int k = 0; k < b.n; ++k)
  {
    ls::Seen& s = b.seen[k]; int p = 0, i = 0, len = 0;
    if (sscanf(s.text, "p%dm%d%n", &p, &i, &len) != 2 || s.text[len] || p < 1 || p > producers || i < 0 || i >= msgs) mc::fail("mixed", "output %d gets the message %s nobody logged (all: %s)", box, mc::quote(s.text).c_str(), b.str().c_str());
    string want = mc::format("K%d/o%d/say/", p == 1 ? 1 : 2, p);
    MC_CHECK(strncmp(s.origin, want.c_str(), want.size()) == 0, "origin", "message %s comes from %s", s.text, s.origin);
    MC_CHECK(s.level == eLL_INFO, "level", "message %s arrives with level %d", s.text, s.level);
    MC_CHECK(!ordered || i == next[p], "order", "output %d: message %d of thread %d arrives when it is the turn of message %d (all: %s)", box, i, p, next[p], b.str().c_str());
    ++next[p];
  }
  for (int p = 1; p <= producers; ++p) MC_CHECK(next[p] == msgs, "lost", "output %d: %d of %d messages of thread %d arrive (all: %s)", box, next[p], msgs, p, b.str().c_str());
}
static void out(const char* entry, const char* kind, const char* name, const char* stream = nullptr)
{
  string e = string("/IclCore/Logging/OutputStream") + entry;
  icl_core::config::setValue(e + "/OutputStreamName", string(kind)); icl_core::config::setValue(e + "/Name", string(name)); icl_core::config::setValue(e + "/LogLevel", string("Info"));
  if (stream) icl_core::config::setValue(e + "/LogStream1", string(stream));
}
static void begin() { sched::Quiet q; memset(ls::g_box, 0, sizeof ls::g_box); }
static void ready() { icl_core::logging::initialize(); ls::watchStream(Alpha::instance()); ls::watchStream(Beta::instance()); }
static void produce(int producers, int msgs, int how, bool two_streams = false)
{
  th::Threads t;
  for (int p = 1; p <= producers; ++p) t.start([=] { for (int i = 0; i < msgs; ++i) say(p, i, how, two_streams && p == 2); });
  t.join();
}
//! Producers against a configuration of outputs; what worker threads still hold is written by the shutdown (L04).
static void together(std::initializer_list<const char*> kinds, int producers, int msgs, int how)
{
  begin();
  { sched::Quiet q; const char* names[] = { "One", "Two" }; int i = 0; for (const char* k : kinds) { out(i ? "B" : "A", k, names[i]); ++i; } }
  ready();
  produce(producers, msgs, how);
  icl_core::logging::shutdown();
  for (size_t i = 0; i < kinds.size(); ++i) verify(int(i), producers, msgs);
}
//! Two streams into one output.
static void streams(const char* kind)
{
  begin();
  { sched::Quiet q; out("A", kind, "One"); }
  ready();
  produce(2, 1, 0, true);
  icl_core::logging::shutdown();
  verify(0, 2, 1);
  for (int i = 0; i < ls::g_box[0].n; ++i) { ls::Seen& s = ls::g_box[0].seen[i]; MC_CHECK(strcmp(s.stream, s.text[1] == '2' ? "Beta" : "Alpha") == 0, "stream", "message %s arrives from stream %s", s.text, s.stream); }
}
//! All buffers of the pool are in use by unfinished messages: further ones are created.
static void pool()
{
  begin();
  { sched::Quiet q; out("A", "Direct", "One", "Alpha"); }
  ready();
  LogStream& s = Alpha::instance();
  // thread 0 holds all buffers of the pool but one
  for (int l = 0; l < cDEFAULT_LOG_THREAD_STREAM_POOL_SIZE - 1; ++l) s.threadStream(LogLevel(100 + l));
  produce(2, 2, 0);
  icl_core::logging::shutdown();
  verify(0, 2, 2);
}
//! Connections change while a thread logs: messages arrive at most once, at the untouched output exactly once.
static void connections(int op)
{
  begin();
  { sched::Quiet q; out("A", "Direct", "One"); out("B", "Direct", "Two"); }
  ready();
  LogStream& s = Alpha::instance();
  ls::Sink* extra = new ls::Sink("Three", "", eLL_TRACE, false);
  if (op == 1) s.addOutputStream(extra);
  th::Threads t;
  t.start([] { say(1, 0, 0, false); say(1, 1, 0, false); });
  bool over = false; int at = 0;
  t.start([&] { if (op == 0) s.addOutputStream(extra); else s.removeOutputStream(extra); sched::Quiet q; over = true; at = ls::g_box[0].n; sched::trace("changed"); });
  t.join();
  verify(0, 1, 2); verify(1, 1, 2);
  ls::Box& b = ls::g_box[2];
  { sched::Quiet q; MC_CHECK(b.n <= 2, "twice", "more messages than were logged: %s", b.str().c_str()); (void)at; (void)over; }
  if (op == 1) { say(2, 0, 0, false); sched::Quiet q; for (int i = 0; i < b.n; ++i) MC_CHECK(b.seen[i].text[1] == '1', "removed", "a removed output gets message %s", b.seen[i].text); }
  else { say(2, 0, 0, false); sched::Quiet q; MC_CHECK(b.n > 0 && b.seen[b.n - 1].text[1] == '2', "added", "an added output does not get the next message"); }
  if (op == 0) s.removeOutputStream(extra);
  delete extra;
  icl_core::logging::shutdown();
}
//! The format is changed while a thread logs: every line has one of the formats.
static void format(int changers)
{
  begin();
  { sched::Quiet q; out("A", "Direct", "One"); }
  ready();
  LogStream& s = Alpha::instance();
  ls::LineSink* o = new ls::LineSink("Three", "", eLL_TRACE, false);
  o->changeLogFormat("A~EA");
  s.addOutputStream(o);
  th::Threads t;
  t.start([] { say(1, 0, 0, false); });
  t.start([o] { o->changeLogFormat("B~EB~LB"); });
  if (changers > 1) t.start([o] { o->changeLogFormat("C~EC~SC"); });
  t.join();
  say(1, 1, 0, false);
  {
    sched::Quiet q;
    ls::Box& b = ls::g_box[2];
    MC_CHECK(b.n == 2, "lost", "%d of 2 lines", b.n);
    for (int i = 0; i < 2; ++i)
    {
      string m = mc::format("p1m%d", i), g = b.seen[i].text;
      bool ok = (i == 0 && g == "A" + m + "A") || g == "B" + m + "BInfoB" || (changers > 1 && g == "C" + m + "CAlphaC");
      MC_CHECK(ok, "format", "line %s has none of the formats", mc::quote(g).c_str());
    }
  }
  s.removeOutputStream(o);
  delete o;
  icl_core::logging::shutdown();
}
//! A thread is logging with all levels at once (one buffer per level), another one as well.
static void levels()
{
  begin();
  { sched::Quiet q; out("A", "Direct", "One", "Alpha"); }
  ready();
  th::Threads t;
  for (int p = 1; p <= 2; ++p) t.start([=] {
    const char* a = p == 1 ? "e1" : "e2"; const char* b = p == 1 ? "w1" : "w2"; const char* c = p == 1 ? "+1" : "+2";
    LOGGING_LOG(Alpha, eLL_ERROR, a); LOGGING_LOG(Alpha, eLL_WARNING, b); LOGGING_LOG(Alpha, eLL_ERROR, c << flush); LOGGING_LOG(Alpha, eLL_WARNING, c << flush); });
  t.join();
  {
    sched::Quiet q;
    ls::Box& b = ls::g_box[0]; int count[2][2] = { { 0, 0 }, { 0, 0 } };
    for (int i = 0; i < b.n; ++i)
    {
      string g = b.seen[i].text; bool ok = false;
      for (int p = 1; p <= 2; ++p) for (int l = 0; l < 2; ++l)
        if (g == mc::format("%c%d+%d", l ? 'w' : 'e', p, p) && b.seen[i].level == (l ? eLL_WARNING : eLL_ERROR)) { ok = true; ++count[p - 1][l]; if (l) MC_CHECK(count[p - 1][0] == 1, "order", "order of %s", b.str().c_str()); }
      MC_CHECK(ok, "mixed", "message %s nobody logged", mc::quote(g).c_str());
    }
    MC_CHECK(b.n == 4, "lost", "%d of 4 messages: %s", b.n, b.str().c_str());
  }
  icl_core::logging::shutdown();
}
int main(int argc, char** argv)
{
  setenv("TZ", "UTC", 1);
  sched::Options sig; sig.interrupts = true;
  typedef std::vector<int> V; bool thorough = false; for (int i = 1; i < argc; ++i) thorough |= string(argv[i]) == "--thorough";
  const V deep = { 0, 1, 2 }, flat = { 0, 1 }, more = thorough ? deep : flat;
  return mc::run(argc, argv, {
    sched::scenario("direct", [] { together({ "Direct" }, 2, 1, 0); }, deep),
    sched::scenario("direct-2", [] { together({ "Direct" }, 2, 2, 0); }, deep),
    sched::scenario("direct-printf", [] { together({ "Direct" }, 2, 1, 1); }, deep),
    sched::scenario("direct-pieces", [] { together({ "Direct" }, 2, 1, 2); }, deep),
    sched::scenario("direct-3", [] { together({ "Direct" }, 3, 1, 0); }, more),
    sched::scenario("worker", [] { together({ "Worker" }, 2, 1, 0); }, more),
    sched::scenario("worker-2", [] { together({ "Worker" }, 2, 2, 1); }, more),
    sched::scenario("both", [] { together({ "Direct", "Worker" }, 2, 1, 0); }, more),
    sched::scenario("two-workers", [] { together({ "Worker", "Worker" }, 1, 2, 0); }, more),
    sched::scenario("streams-direct", [] { streams("Direct"); }, deep),
    sched::scenario("streams-worker", [] { streams("Worker"); }, more),
    sched::scenario("signals", [] { together({ "Worker" }, 2, 1, 0); }, more, sig),
    sched::scenario("pool", pool, deep),
    sched::scenario("levels", levels, deep),
    sched::scenario("add-output", [] { connections(0); }, deep),
    sched::scenario("remove-output", [] { connections(1); }, deep),
    sched::scenario("format", [] { format(1); }, deep),
    sched::scenario("two-formats", [] { format(2); }, deep) });
}
