// Compatibility names of the logging library: the same history under the old and under the current names, each in its own process
// (the logging manager, its streams and its outputs exist once per process).
#include "deprecated_child.h"
#include <iostream>
#include <fstream>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <algorithm>
#include <cassert>
#include <cstring>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include "icl_core/BaseTypes.h"
#include "icl_core_config/Config.h"
#include "icl_core_logging/Logging.h"
#include "icl_core_logging/LogOutputStream.h"
#include "icl_core_logging/LoggingManager.h"
#include "icl_core_logging/FileLogOutput.h"
#include "icl_core_logging/StdLogOutput.h"
#include "icl_core_logging/StdErrorLogOutput.h"
#include "icl_core_logging/UdpLogOutput.h"
#include "icl_core_logging/Semaphore.h"
#include "icl_core_logging/ScopedSemaphore.h"
#include "icl_core_logging/tFileLogOutput.h"
#include "icl_core_logging/tLogLevel.h"
#include "icl_core_logging/tLogOutputStream.h"
#include "icl_core_logging/tLogStream.h"
#include "icl_core_logging/tLoggingManager.h"
#include "icl_core_logging/tScopedSemaphore.h"
#include "icl_core_logging/tSemaphore.h"
#include "icl_core_logging/tStdErrorLogOutput.h"
#include "icl_core_logging/tStdLogOutput.h"
#include "icl_core_logging/tThread.h"
#include "icl_core_logging/tThreadStream.h"
#include "icl_core_logging/tUdpLogOutput.h"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using std::string; using std::vector;
namespace lg = icl_core::logging;
DECLARE_LOG_STREAM(Alpha)
DECLARE_LOG_STREAM(Beta)
REGISTER_LOG_STREAM(Alpha)
REGISTER_LOG_STREAM(Beta)
static timespec g_now = { 1000000000, 7654321 }; static bool g_fake = false;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { timespec t = g_now; if (!g_fake) syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
extern "C" int clock_gettime(clockid_t c, timespec* t) noexcept { if (g_fake && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { *t = g_now; return 0; } return int(syscall(SYS_clock_gettime, c, t)); }

//! keep what they are given: formatted lines, or all fields of the messages
class Keep : public lg::LogOutputStream
{
public:
  Keep(const string& name, const string& prefix, lg::LogLevel level, bool worker) : LogOutputStream(name, prefix, level, worker) { made()[name] = this; }
  ~Keep() { made().erase(name()); }
  static std::map<string, Keep*>& made() { static std::map<string, Keep*>* m = new std::map<string, Keep*>; return *m; }
  static lg::LogOutputStream* create(const string& name, const string& prefix, lg::LogLevel level);
  vector<string> lines;
private:
  void pushImpl(const string& line) { lines.push_back(line); }
};
class Fields : public Keep
{
public:
  Fields(const string& name, const string& prefix, lg::LogLevel level, bool worker) : Keep(name, prefix, level, worker) { }
private:
  void pushImpl(const string& line) { lines.push_back(line); }
  void pushImpl(const LogMessage& m)
  {
    lines.push_back(mc::format("%s|%s|%s|%zu|%s|%s|%s|%s", lg::logLevelDescription(m.log_level), m.log_stream, m.filename, m.line, m.class_name, m.object_name, m.function_name, dep::repr(m.message_text).c_str()));
  }
};
static bool g_fields = false;
lg::LogOutputStream* Keep::create(const string& name, const string& prefix, lg::LogLevel level) { if (g_fields) return new Fields(name, prefix, level, false); return new Keep(name, prefix, level, false); }
static const lg::LogLevel LEVELS[] = { lg::eLL_TRACE, lg::eLL_DEBUG, lg::eLL_INFO, lg::eLL_WARNING, lg::eLL_ERROR, lg::eLL_MUTE };
static void plain()                                                               // configuration of every run
{
  const char* P = "/IclCore/Logging/";
  icl_core::config::setValue(string(P) + "OutputStreamA/OutputStreamName", string("Keep"));
  icl_core::config::setValue(string(P) + "OutputStreamA/Name", string("One"));
  icl_core::config::setValue(string(P) + "OutputStreamA/LogLevel", string("Trace"));
}
static vector<string> taken(const char* name) { auto i = Keep::made().find(name); if (i == Keep::made().end()) return vector<string>(1, "no such output"); vector<string> v; v.swap(i->second->lines); return v; }
REGISTER_LOG_OUTPUT_STREAM(Keep, &Keep::create)

#define N(current, old) current
namespace current {
#include "D03_body.inc"
}
#undef N
#define N(current, old) old
namespace compat {
#include "D03_body.inc"
}
#undef N
static void levels()
{
  for (auto l : LEVELS) SAME("levels", lg::logLevelDescription(l), lg::LogLevelDescription(l));
  for (auto t : { "Trace", "Debug", "Info", "Warning", "Error", "Mute", "", "trace", "Tracex" })
    for (auto before : LEVELS)
    {
      lg::LogLevel a = before, b = before; SAME("levels", lg::stringToLogLevel(t, a), lg::StringToLogLevel(t, b));
      MC_CHECK(a == b, "levels", "StringToLogLevel(%s) stores %d, stringToLogLevel %d", t, int(b), int(a));
    }
}
static void semaphores()
{
  for (size_t initial : { 0, 1, 2, 5 }) for (int posts = 0; posts < 3; ++posts)
  {
    lg::Semaphore a(initial), b(initial); for (int i = 0; i < posts; ++i) { a.post(); b.Post(); }
    for (size_t i = 0; i < initial + size_t(posts); ++i) SAME("semaphores", a.wait(), b.Wait());
    a.post(); b.Post(); { lg::ScopedSemaphore x(a), y(b); SAME("semaphores", x.isDecremented(), y.IsDecremented()); SAME("semaphores", y.isDecremented(), y.IsDecremented()); }
    SAME("semaphores", a.wait(), b.Wait());
  }
}
static void types()
{
  SAME_TYPE(lg::FileLogOutput, lg::tFileLogOutput); SAME_TYPE(lg::LogLevel, lg::tLogLevel); SAME_TYPE(lg::LogOutputStream, lg::tLogOutputStream); SAME_TYPE(lg::LogStream, lg::tLogStream); SAME_TYPE(lg::LoggingManager, lg::tLoggingManager);
  SAME_TYPE(lg::ScopedSemaphore, lg::tScopedSemaphore); SAME_TYPE(lg::Semaphore, lg::tSemaphore); SAME_TYPE(lg::StdErrorLogOutput, lg::tStdErrorLogOutput); SAME_TYPE(lg::StdLogOutput, lg::tStdLogOutput);
  SAME_TYPE(lg::Thread, lg::tThread); SAME_TYPE(lg::ThreadStream, lg::tThreadStream); SAME_TYPE(lg::UdpLogOutput, lg::tUdpLogOutput);
}
namespace run {
static void outputs() { both(current::outputs, compat::outputs, "outputs", { 2, 5, 4, 6, 6 }); }
static void streams() { both(current::streams, compat::streams, "streams", { 2, 6, 6, 3, 3 }); }
static void threadStreams() { both(current::threadStreams, compat::threadStreams, "thread streams", { 6, 6, 7, 7 }); }
static void manager() { both(current::manager, compat::manager, "manager", { 4, 8, 8, mc::thorough() ? 8 : 1 }); }
static void start() { both(current::start, compat::start, "start", { 5, 7, 5 }); }
}
int main(int argc, char** argv)
{
  dep::g_child = [] { g_fake = true; };
  return mc::run(argc, argv, {
    mc::Scenario("levels", levels), mc::Scenario("semaphores", semaphores), mc::Scenario("outputs", run::outputs).limit(40), mc::Scenario("streams", run::streams).limit(40),
    mc::Scenario("thread streams", run::threadStreams).limit(60), mc::Scenario("manager", run::manager).limit(60), mc::Scenario("start", run::start).limit(60), mc::Scenario("type names", types),
  });
}
