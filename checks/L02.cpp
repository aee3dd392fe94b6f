// L02: log line formatting follows the configured format exactly.
#include "logging.h"
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <ctime>
#include <memory>
using std::string; using std::vector;
using namespace lg;

// ---------------------------------------------------------------- the clock
static bool g_fake = false; static timespec g_now;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
  timespec t = g_now; if (!g_fake) syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
extern "C" int clock_gettime(clockid_t c, timespec* t) noexcept
{
  if (g_fake && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { *t = g_now; return 0; }
  return int(syscall(SYS_clock_gettime, c, t));
}
struct Clock { Clock(time_t s, long n) { g_now.tv_sec = s; g_now.tv_nsec = n; g_fake = true; } ~Clock() { g_fake = false; } };

// ---------------------------------------------------------------- an output that keeps its lines
class Lines : public LogOutputStream
{
public:
  Lines(const string& name, const string& prefix, lg::LogLevel level) : LogOutputStream(name, prefix, level, false) { last() = this; }
  static Lines*& last() { static Lines* l; return l; }
  static LogOutputStream* create(const string& name, const string& prefix, lg::LogLevel level) { return new Lines(name, prefix, level); }
  vector<string> got;
private:
  virtual void pushImpl(const string& line) { got.push_back(line); }
};
REGISTER_LOG_OUTPUT_STREAM(Lines, &Lines::create)

// ---------------------------------------------------------------- the reference expansion
struct Msg { LogLevel level; string stream, file; int line; string cls, obj, fun, text; time_t sec; long nsec; };
static const char* LEVEL[] = { "Trace", "Debug", "Info", "Warning", "Error", "Mute" };
static string expand(const string& f, const Msg& m, const string& tf)
{
  string out; size_t i = 0;
  while (i < f.size())
  {
    if (f[i] != '~') { out += f[i++]; continue; }
    ++i;
    size_t width = 0;
    while (i < f.size() && isdigit((unsigned char)f[i])) width = width * 10 + (f[i++] - '0');
    string prefix;
    while (i < f.size() && !strchr("CODEFGLSTM", f[i])) prefix += f[i++];
    if (i == f.size()) break;                 // a marker that is never completed
    switch (f[i++])
    {
    case 'C': if (!m.cls.empty()) out += prefix + m.cls; break;
    case 'D': if (!m.fun.empty()) out += prefix + m.fun; break;
    case 'O':
      if (!m.obj.empty()) out += prefix + m.obj + (prefix.empty() ? "" : prefix[0] == '(' ? ")" : prefix[0] == '[' ? "]" : prefix[0] == '{' ? "}" : "");
      break;
    case 'E': out += m.text; break;
    case 'F': out += m.file; break;
    case 'G': out += mc::format("%d", m.line); break;
    case 'L': out += LEVEL[m.level]; break;
    case 'S': out += m.stream; break;
    case 'T': { char b[512]; struct tm t; localtime_r(&m.sec, &t); b[strftime(b, sizeof b, tf.c_str(), &t)] = 0; out += b; break; }
    case 'M': { string s = mc::format("%ld", m.nsec / 1000000); while (s.size() < width) s = "0" + s; out += s; break; }
    }
  }
  return out;
}
static const Msg FULL = { eLL_WARNING, "Stream", "some/file.cpp", 4711, "Klass", "obj", "func", "the text", 1234567890, 7123456 };
static const Msg BARE = { eLL_TRACE, "", "", 0, "", "", "", "", 0, 0 };
static const Msg ODD = { eLL_ERROR, "~S", "~T%d%s", 2147483647, "", "~(O", "", "~E\n100%", 951827696, 999999999 };
static const Msg* MSGS[] = { &FULL, &BARE, &ODD };

//! The format in a buffer that ends right behind it.
struct Exact { std::unique_ptr<char[]> p; explicit Exact(const string& s) : p(new char[s.size() + 1]) { memcpy(p.get(), s.c_str(), s.size() + 1); } };
static void check(Lines& l, const string& format, const Msg& m, const string& tf, const char* key)
{
  l.got.clear();
  { Clock c(m.sec, m.nsec); l.push(m.level, m.stream.c_str(), m.file.c_str(), m.line, m.cls.c_str(), m.obj.c_str(), m.fun.c_str(), m.text.c_str()); }
  string want = expand(format, m, tf);
  MC_CHECK(l.got.size() == 1, "count", "format %s: %zu lines for one message", mc::quote(format).c_str(), l.got.size());
  MC_CHECK(l.got[0] == want, key, "format %s, time format %s: got %s, expected %s", mc::quote(format).c_str(), mc::quote(tf).c_str(), mc::quote(l.got[0]).c_str(), mc::quote(want).c_str());
  mc::transition();
}
static const char* TIME = "%Y-%m-%d %H:%M:%S";
static const char* DEFAULT = "<~T.~3M> ~S(~L)~ C~(O~::D: ~E";
static void init()
{
  static bool done = false;
  if (done) return;
  done = true;
  icl_core::config::setValue("/IclCore/Logging/OutputStreamA/OutputStreamName", string("Lines"));
  icl_core::config::setValue("/IclCore/Logging/OutputStreamA/Name", string("One"));
  icl_core::config::setValue("/IclCore/Logging/OutputStreamA/LogLevel", string("Trace"));
  char name[] = "program"; char* argv[] = { name, nullptr }; int argc = 1;
  icl_core::logging::initialize(argc, argv);
}
// ---------------------------------------------------------------- all formats of a few fragments
static const vector<string>& fragments()
{
  static vector<string> f = { "x", ": ", "0", "C", "%s", "~C", "~ C", "~O", "~(O", "~[O", "~{O", "~<O", "~D", "~::D", "~E", "~F", "~G", "~L", "~S", "~T", "~M", "~1M", "~3M", "~5M", "~12E", "~8::D", "~", "~7", "~?", "~yz", "\n", "\xc3\xa4" };
  return f;
}
static void formats()
{
  init();
  Lines out("direct", "", eLL_TRACE);
  const auto& F = fragments(); const int depth = mc::thorough() ? 5 : 4;
  string f;
  for (int d = 0; d < depth; ++d)
  {
    int i = mc::choose(int(F.size()) + 1, "fragment");
    if (i == 0) break;
    f += F[i - 1];
  }
  Exact e(f);
  out.changeLogFormat(e.p.get());
  const string in_force = f.empty() ? DEFAULT : f;         // an empty format changes nothing
  for (const Msg* m : MSGS) check(out, in_force, *m, TIME, "expansion");
  check(out, in_force, FULL, TIME, "repeated");
}
// ---------------------------------------------------------------- long literals, prefixes, many entries, wide fields
static void sizes()
{
  init();
  Lines out("direct", "", eLL_TRACE);
  static const int LEN[] = { 0, 1, 50, 98, 99, 100, 101, 102, 127, 128, 199, 200, 201, 202, 255, 256, 257, 500, 501, 1000, 5000 };
  int kind = mc::choose(9, "kind"), n = LEN[mc::choose(int(sizeof LEN / sizeof *LEN), "length")]; bool tail = mc::flip("followed by text");
  string body(n, 'x'), f;
  for (int i = 0; i < n; ++i) body[i] = char('a' + i % 26);
  switch (kind)
  {
  case 0: f = body; break;
  case 1: f = "~" + body + "C"; break;
  case 2: f = "~(" + body + "O"; break;
  case 3: f = "~" + body + "D"; break;
  case 4: f = "~" + body + "E"; break;
  case 5: f = "~" + body; break;                        // never completed
  case 6: f = mc::format("~%dM", n); break;
  case 7: for (int i = 0; i < n; ++i) f += i % 2 ? "~L" : "-"; break;
  case 8: f = string(n, '~') + "E"; break;
  }
  if (tail) f += "~S tail";
  if (f.empty()) return;
  Exact e(f);
  out.changeLogFormat(e.p.get());
  for (const Msg* m : MSGS) check(out, f, *m, TIME, "sizes");
}
// ---------------------------------------------------------------- times
static void times()
{
  init();
  Lines out("direct", "", eLL_TRACE);
  static const time_t SEC[] = { 0, 1, 59, 86399, 86400, 951782399, 951782400, 1078012800, 1234567890, 1699999999, 4102444800LL, 7258118399LL };
  static const long NS[] = { 0, 1000, 999000, 1000000, 1999999, 9999000, 10000000, 10001000, 99999000, 100000000, 100999000, 500000000, 998999000, 999000000, 999999000 };
  static const char* FMT[] = { TIME, "%H:%M", "%s", "", "%%", "%j %U ~E", "%A, %d. %B %Y", "literal" };
  int tz = mc::choose(3, "zone"), f = mc::choose(8, "time format"), w = mc::choose(6, "width");
  static const char* ZONE[] = { "UTC", "EST5EDT", "XYZ-5:30" };
  setenv("TZ", ZONE[tz], 1); tzset();
  out.changeTimeFormat(FMT[f]);
  string format = "[~T." + (w ? mc::format("~%dM", w) : string("~M")) + "]~E";
  out.changeLogFormat(format.c_str());
  for (time_t s : SEC) for (long n : NS) { Msg m = FULL; m.sec = s; m.nsec = n; check(out, format, m, FMT[f], "time"); }
  if (w == 0) for (long n = 0; n < 1000; ++n) { Msg m = FULL; m.nsec = n * 1000000 + 999000; check(out, format, m, FMT[f], "milliseconds"); }
  setenv("TZ", "UTC", 1); tzset();
}
// ---------------------------------------------------------------- where the format comes from
static void histories()
{
  init();
  static const char* F[] = { "", "~E", "~L:~E|", "~S", "~", "plain", DEFAULT };
  int conf = mc::choose(8, "configured format");
  string in_force = DEFAULT; string tf = TIME;
  if (conf) { icl_core::config::setValue("/Prefix/Format", string(F[conf - 1])); in_force = F[conf - 1]; }
  else icl_core::config::setValue("/Prefix/Format", string(DEFAULT));
  Lines out("direct", "/Prefix", eLL_TRACE);
  check(out, in_force, FULL, tf, "configured");
  for (int d = 0; d < (mc::thorough() ? 5 : 4); ++d)
  {
    int op = mc::choose(10, "operation");
    if (op == 0) break;
    if (op <= 7) { Exact e(F[op - 1]); out.changeLogFormat(e.p.get()); if (*F[op - 1]) in_force = F[op - 1]; }
    else { tf = op == 8 ? "%S" : TIME; out.changeTimeFormat(op == 8 ? "%S" : TIME); }
    for (const Msg* m : MSGS) check(out, in_force, *m, tf, "history");
  }
}
static void managed()
{
  init();
  Lines* one = Lines::last();
  // the output "One" is created by the manager; it is the one that answers to its name
  static const char* F[] = { "~E", "~L ~E", "", "x" };
  string expected = DEFAULT;
  for (int d = 0; d < 3; ++d)
  {
    int f = mc::choose(5, "format");
    if (f == 0) break;
    int name = mc::choose(3, "name");
    static const char* NAME[] = { "One", "Two", "" };
    LoggingManager::instance().changeLogFormat(NAME[name], F[f - 1]);
    if (name == 0 && *F[f - 1]) expected = F[f - 1];
    for (const Msg* m : MSGS) check(*one, expected, *m, TIME, "manager");
  }
}
static void throughStream()
{
  // the whole way: statement, stream, output, with every origin
  init();
  Lines out("direct", "", eLL_TRACE);
  LogStream s("Through"); s.addOutputStream(&out);
  out.changeLogFormat("~S|~L|~F|~G|~C|~(O|~::D|~E|");
  int level = mc::choose(3, "level") + 2; int origin = mc::choose(4, "origin"); bool fmt = mc::flip("printf"); string text = mc::pick(vector<string>{ "", "text", "~E %d", "a\nb" }, "text");
  string want = mc::format("Through|%s|%s|", LEVEL[level], __FILE__); int line = 0; LogLevel l = LogLevel(level);
  if (fmt)
  {
    if (origin == 0) { SLOGGING_FMT_LOG(s, l, "%s", text.c_str()); line = __LINE__; }
    if (origin == 1) { SLOGGING_FMT_LOG_C(s, l, Klass, "%s", text.c_str()); line = __LINE__; }
    if (origin == 2) { SLOGGING_FMT_LOG_CO(s, l, Klass, "obj", "%s", text.c_str()); line = __LINE__; }
    if (origin == 3) { SLOGGING_FMT_LOG_CO(s, l, Klass, "obj", "%s", text.c_str()); out.got.clear(); SLOGGING_FMT_LOG(s, l, "%s", text.c_str()); line = __LINE__; }
  }
  else
  {
    if (origin == 0) { SLOGGING_LOG(s, l, text << flush); line = __LINE__; }
    if (origin == 1) { SLOGGING_LOG_C(s, l, Klass, text << flush); line = __LINE__; }
    if (origin == 2) { SLOGGING_LOG_CO(s, l, Klass, "obj", text << flush); line = __LINE__; }
    if (origin == 3) { SLOGGING_LOG_CO(s, l, Klass, "obj", text << flush); out.got.clear(); SLOGGING_LOG(s, l, text << flush); line = __LINE__; }
  }
  want += mc::format("%d|%s|%s|::throughStream|%s|", line, origin == 1 || origin == 2 ? "Klass" : "", origin == 2 ? "(obj)" : "", text.c_str());
  MC_CHECK(out.got.size() == 1 && out.got[0] == want, "statement", "origin %d: got %s, expected %s", origin, out.got.empty() ? "nothing" : mc::quote(out.got[0]).c_str(), mc::quote(want).c_str());
}
int main(int argc, char** argv)
{
  setenv("TZ", "UTC", 1); tzset();
  return mc::run(argc, argv, {
    mc::Scenario("formats", formats).timeout(60), mc::Scenario("sizes", sizes).timeout(60), mc::Scenario("times", times).timeout(120),
    mc::Scenario("histories", histories).timeout(60), mc::Scenario("managed", managed).forked().timeout(60), mc::Scenario("statements", throughStream).timeout(60) });
}
