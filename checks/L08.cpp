// L08: scoped timers, level names and the two standard outputs.
#include "logging.h"
#define _IC_DEBUG_
#include <memory>
#include <sstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include "icl_core_logging/LogLevel.h"
#include "icl_core_logging/ScopedTimer.h"
#include "icl_core_logging/StdLogOutput.h"
#include "icl_core_logging/StdErrorLogOutput.h"
using std::string; using std::vector;
REGISTER_LOG_OUTPUT_STREAM(Rec, &lc::Recorder::create)
DECLARE_LOG_STREAM(Alpha)
DECLARE_LOG_STREAM(Beta)
REGISTER_LOG_STREAM(Alpha)
REGISTER_LOG_STREAM(Beta)

// ---------------------------------------------------------------- the clock
static bool g_fake = false; static timespec g_now;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { timespec t = g_now; if (!g_fake) syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
extern "C" int clock_gettime(clockid_t c, timespec* t) noexcept { if (g_fake && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { *t = g_now; return 0; } return int(syscall(SYS_clock_gettime, c, t)); }
static int64_t now() { return int64_t(g_now.tv_sec) * 1000000000 + g_now.tv_nsec; }
static void advance(int64_t us) { int64_t n = now() + us * 1000; g_now.tv_sec = n / 1000000000; g_now.tv_nsec = n % 1000000000; }

static void setup()
{
  const char* P = "/IclCore/Logging/";
  icl_core::config::setValue(string(P) + "OutputStreamA/OutputStreamName", string("Rec"));
  icl_core::config::setValue(string(P) + "OutputStreamA/Name", string("One"));
  icl_core::config::setValue(string(P) + "OutputStreamA/LogLevel", string("Trace"));
  for (int i = 0; i < 2; ++i)
  {
    icl_core::config::setValue(mc::format("%sLogStream%d/Name", P, i), string(i ? "Beta" : "Alpha"));
    icl_core::config::setValue(mc::format("%sLogStream%d/LogLevel", P, i), string("Trace"));
  }
  char name[] = "program"; char* argv[] = { name, nullptr }; int argc = 1;
  lg::initialize(argc, argv);
}
static vector<lc::Record> take() { auto& r = *lc::Recorder::all()["One"]; vector<lc::Record> v; v.swap(r.got); return v; }

// ---------------------------------------------------------------- scoped timers
struct Ghost { bool alive = false, active = false; int64_t start = 0; string stream, what, file, cls, object; lg::LogLevel level; size_t line = 0; };
static void expect(const Ghost& g, const string& extra, const char* how)
{
  vector<lc::Record> got = take(); bool loud = g.level >= lg::eLL_TRACE;
  MC_CHECK(got.size() == size_t(loud), "records", "%s writes %zu records", how, got.size());
  const lc::Record& r = got[0];
  string want = g.what + (extra.empty() ? "" : " (" + extra.substr(1) + ")") + ": " + std::to_string(now() - g.start) + " ns\n";
  MC_CHECK(r.text == want, "text", "%s writes %s, expected %s", how, mc::quote(r.text).c_str(), mc::quote(want).c_str());
  MC_CHECK(r.level == g.level && r.stream == g.stream, "level", "%s writes to %s at level %s, expected %s, %s", how, r.stream.c_str(), lg::logLevelDescription(r.level), g.stream.c_str(), lg::logLevelDescription(g.level));
  MC_CHECK(r.file == g.file && r.line == g.line && r.cls == g.cls && r.object == g.object, "origin", "%s names %s:%zu %s %s, expected %s:%zu %s %s", how, r.file.c_str(), r.line, r.cls.c_str(), r.object.c_str(), g.file.c_str(), g.line, g.cls.c_str(), g.object.c_str());
}
static void silent(const char* how) { vector<lc::Record> got = take(); MC_CHECK(got.empty(), "records", "%s writes %zu records", how, got.size()); }
static void timers(int ops)
{
  g_now = { 1000000000, 999999000 }; g_fake = true; take();
  static const lg::LogLevel L[] = { lg::eLL_TRACE, lg::eLL_DEBUG, lg::eLL_INFO, lg::eLL_WARNING, lg::eLL_ERROR };
  std::unique_ptr<lg::ScopedTimer<Alpha> > a; std::unique_ptr<lg::ScopedTimer<Beta> > b; Ghost g[2]; uint64_t h = 0;
  for (int i = 0; i < ops; ++i)
  {
    int t = mc::choose(2, "timer"), op = mc::choose(6, "operation"); Ghost& w = g[t]; h = mc::mix(h, uint64_t(op * 2 + t));
    if (op == 0)
    {
      if (w.alive) mc::prune();
      w = Ghost(); w.alive = w.active = true; w.start = now(); w.stream = t ? "Beta" : "Alpha"; int kind = mc::choose(4, "timer");
      w.what = kind == 0 ? "Foo" : kind == 1 ? "" : kind == 2 ? "%s \"x\"" : "a: b (c)"; w.level = kind == 0 ? mc::pick(L, "level") : lg::eLL_WARNING;
      w.file = kind == 1 ? "" : "dir/file.cpp"; w.line = size_t(kind) * 4711; w.cls = kind == 2 ? "" : "Class"; w.object = kind == 3 ? "" : "object";
      if (t) b.reset(new lg::ScopedTimer<Beta>(w.what, w.level, w.file, w.line, w.cls, w.object)); else a.reset(new lg::ScopedTimer<Alpha>(w.what, w.level, w.file, w.line, w.cls, w.object));
      silent("making a timer");
      continue;
    }
    if (op == 1) { if (t) mc::prune(); static const int64_t D[] = { 0, 1, 999999, 1000000, 86400000000ll, -5 }; advance(mc::pick(D, "time")); continue; }
    if (!w.alive) mc::prune();
    switch (op)
    {
      case 2: if (t) b->print(); else a->print(); expect(w, "", "print"); break;
      case 3: { static const char* const X[] = { "step", "" }; string x = mc::pick(X, "extra"); if (t) b->print(x); else a->print(x); expect(w, "(" + x, "print with a remark"); break; }
      case 4: if (t) b->stop(); else a->stop(); if (w.active) expect(w, "", "stop"); else silent("a second stop"); w.active = false; break;
      case 5: if (t) b.reset(); else a.reset(); if (w.active) expect(w, "", "the end of the timer"); else silent("the end of a stopped timer"); w.alive = false; break;
    }
    mc::transition();
  }
  for (int t = 0; t < 2; ++t) if (g[t].alive) { if (t) b.reset(); else a.reset(); if (g[t].active) expect(g[t], "", "the end of the timer"); else silent("the end of a stopped timer"); }
  g_fake = false; mc::state(h);
}
// the macros: level, place and scope
static void macros()
{
  g_now = { 1000000000, 0 }; g_fake = true; take(); Ghost g; g.stream = "Alpha"; g.start = now(); g.what = "what"; g.file = __FILE__;
  int k = mc::choose(20, "macro"), how = mc::choose(3, "left by"); g.level = lg::LogLevel(lg::eLL_ERROR - k % 5 < lg::eLL_TRACE ? lg::eLL_TRACE : lg::eLL_ERROR - k % 5);
  bool thrown = false;
  auto leave = [&] { silent("a running timer"); advance(1234); if (how == 1) { thrown = true; throw 1; } };
  try
  {
    for (int once = 0; once < 1; ++once)
    {
#define CASE(n, M) case n: { g.line = __LINE__; M; leave(); if (how == 2) break; break; }
      switch (k)
      {
        CASE(0, LOGGING_SCOPED_TIMER_ERROR(Alpha, "what")) CASE(1, LOGGING_SCOPED_TIMER_WARNING(Alpha, "what")) CASE(2, LOGGING_SCOPED_TIMER_INFO(Alpha, "what"))
        CASE(3, LOGGING_SCOPED_TIMER_DEBUG(Alpha, "what")) CASE(4, LOGGING_SCOPED_TIMER_TRACE(Alpha, "what"))
        CASE(5, g.cls = "C"; LOGGING_SCOPED_TIMER_ERROR_C(Alpha, "what", "C")) CASE(6, g.cls = "C"; LOGGING_SCOPED_TIMER_WARNING_C(Alpha, "what", "C")) CASE(7, g.cls = "C"; LOGGING_SCOPED_TIMER_INFO_C(Alpha, "what", "C"))
        CASE(8, g.cls = "C"; LOGGING_SCOPED_TIMER_DEBUG_C(Alpha, "what", "C")) CASE(9, g.cls = "C"; LOGGING_SCOPED_TIMER_TRACE_C(Alpha, "what", "C"))
        CASE(10, g.cls = "C"; g.object = "o"; LOGGING_SCOPED_TIMER_ERROR_CO(Alpha, "what", "C", "o")) CASE(11, g.cls = "C"; g.object = "o"; LOGGING_SCOPED_TIMER_WARNING_CO(Alpha, "what", "C", "o"))
        CASE(12, g.cls = "C"; g.object = "o"; LOGGING_SCOPED_TIMER_INFO_CO(Alpha, "what", "C", "o")) CASE(13, g.cls = "C"; g.object = "o"; LOGGING_SCOPED_TIMER_DEBUG_CO(Alpha, "what", "C", "o"))
        CASE(14, g.cls = "C"; g.object = "o"; LOGGING_SCOPED_TIMER_TRACE_CO(Alpha, "what", "C", "o"))
        CASE(15, LOGGING_SCOPED_TIMER_ERROR_V(Alpha, t, "what"); (void)t) CASE(16, g.cls = "C"; LOGGING_SCOPED_TIMER_WARNING_VC(Alpha, t, "what", "C"); (void)t)
        CASE(17, g.cls = "C"; g.object = "o"; LOGGING_SCOPED_TIMER_INFO_VCO(Alpha, t, "what", "C", "o"); (void)t) CASE(18, LOGGING_SCOPED_TIMER_DEBUG_V(Alpha, t, "what"); (void)t)
        CASE(19, g.cls = "C"; g.object = "o"; LOGGING_SCOPED_TIMER_TRACE_VCO(Alpha, t, "what", "C", "o"); (void)t)
      }
    }
  }
  catch (int) { }
  MC_CHECK(thrown == (how == 1), "throw", "the exception did not get through the timer");
  expect(g, "", "the end of the scope"); g_fake = false; mc::transition();
}
// ---------------------------------------------------------------- level names
static void levels()
{
  static const char* const N[] = { "Trace", "Debug", "Info", "Warning", "Error", "Mute" };
  static const lg::LogLevel L[] = { lg::eLL_TRACE, lg::eLL_DEBUG, lg::eLL_INFO, lg::eLL_WARNING, lg::eLL_ERROR, lg::eLL_MUTE };
  int i = mc::choose(6, "level");
  MC_CHECK(string(lg::logLevelDescription(L[i])) == N[i], "name", "level %d is called %s", i, lg::logLevelDescription(L[i]));
  if (i) MC_CHECK(L[i - 1] < L[i], "order", "%s is not more severe than %s", N[i], N[i - 1]);
  // the name, every name with one character more, less or changed
  string t = N[i]; int op = mc::choose(4, "change");
  if (op == 1) t.insert(size_t(mc::choose(int(t.size()) + 1, "place")), 1, "aT \n"[mc::choose(4, "character")]);
  if (op == 2) t.erase(size_t(mc::choose(int(t.size()), "place")), 1);
  if (op == 3) { size_t p = size_t(mc::choose(int(t.size()), "place")); t[p] = mc::flip("case") ? char(t[p] ^ 0x20) : char(t[p] + 1); }
  int want = -1; for (int k = 0; k < 6; ++k) if (t == N[k]) want = k;
  for (int before = 0; before < 6; ++before)
  {
    lg::LogLevel l = L[before]; bool ok = lg::stringToLogLevel(t, l);
    MC_CHECK(ok == (want >= 0), "parse", "%s is %s", mc::quote(t).c_str(), ok ? "taken for a level" : "not recognised");
    MC_CHECK(l == (ok ? L[want] : L[before]), "parse", "%s yields %s", mc::quote(t).c_str(), lg::logLevelDescription(l));
  }
  mc::transition();
}
static void strange()
{
  static const int V[] = { -1, 6, 7, 100, 1000000, -1000000 };
  lg::LogLevel l = lg::LogLevel(mc::pick(V, "value")); const char* d = lg::logLevelDescription(l);
  MC_CHECK(d && !*d, "name", "the value %d has the name %s", int(l), d ? d : "(null)");
  static const char* const T[] = { "", " ", "Fatal", "trace", "ERROR", "InfoInfo", "0", "Mute\n" };
  lg::LogLevel k = lg::eLL_INFO; MC_CHECK(!lg::stringToLogLevel(mc::pick(T, "text"), k) && k == lg::eLL_INFO, "parse", "a text that is no name changed the level");
  mc::transition();
}
// ---------------------------------------------------------------- standard output and error output
static void standard(int messages)
{
  bool err = mc::flip("error output"), late = mc::flip("started late");
  auto flush = [] { std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr); }; flush();
  int fd[2], saved[2]; for (int i = 0; i < 2; ++i) { fd[i] = memfd_create("output", 0); saved[i] = dup(i + 1); dup2(fd[i], i + 1); }
  lg::LogOutputStream* s = err ? lg::StdErrorLogOutput::create("out", "/L08", lg::eLL_INFO) : lg::StdLogOutput::create("out", "/L08", lg::eLL_INFO);
  s->changeLogFormat("~L|~E"); string want;
  if (!late) s->start();
  static const char* const T[] = { "text", "", "two\nlines\n", "100%s", "\xc3\xa4 \xff" };
  static const lg::LogLevel L[] = { lg::eLL_DEBUG, lg::eLL_INFO, lg::eLL_ERROR };
  for (int i = 0; i < messages; ++i) { string t = mc::pick(T, "text"); lg::LogLevel l = mc::pick(L, "level"); s->push(l, "s", "f", 1, "", "", "", t.c_str()); if (l >= lg::eLL_INFO) want += string(lg::logLevelDescription(l)) + "|" + t; }
  if (late) s->start();
  s->shutdown(); delete s;
  flush(); string out[2];
  for (int i = 0; i < 2; ++i) { dup2(saved[i], i + 1); close(saved[i]); char b[4096]; ssize_t n = pread(fd[i], b, sizeof b, 0); out[i].assign(b, n > 0 ? size_t(n) : 0); close(fd[i]); }
  MC_CHECK(out[err] == want, "output", "the %s output is %s, expected %s", err ? "error" : "standard", mc::quote(out[err]).c_str(), mc::quote(want).c_str());
  MC_CHECK(out[!err].empty(), "output", "%s appears on the other output", mc::quote(out[!err]).c_str());
  mc::transition(messages);
}
int main(int argc, char** argv)
{
  bool th = false; for (int i = 1; i < argc; ++i) th |= string(argv[i]) == "--thorough";
  setup();
  return mc::run(argc, argv, { { "timers", [th] { timers(th ? 6 : 5); } }, { "macros", macros }, { "levels", levels }, { "strange", strange }, { "standard", [th] { standard(th ? 3 : 2); } } });
}
