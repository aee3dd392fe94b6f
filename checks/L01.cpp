// L01: log messages reach exactly the outputs whose levels admit them.
#include "logging.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <fstream>
#include <sstream>
using std::string; using std::vector; using std::map; using std::set;
using namespace lg;

DECLARE_LOG_STREAM(Alpha)
DECLARE_LOG_STREAM(Beta)
REGISTER_LOG_STREAM(Alpha)
REGISTER_LOG_STREAM(Beta)
REGISTER_LOG_OUTPUT_STREAM(Rec, &lc::Recorder::create)

static const LogLevel LEVELS[] = { eLL_TRACE, eLL_DEBUG, eLL_INFO, eLL_WARNING, eLL_ERROR, eLL_MUTE };
static const char* NAMES[] = { "Trace", "Debug", "Info", "Warning", "Error", "Mute" };

// ---------------------------------------------------------------- what ought to happen
struct Model
{
  bool active[2] = { true, true }; int stream[2] = { eLL_INFO, eLL_INFO };
  map<string, int> output;                       // level per output
  map<string, bool> joined[2];                   // connections per stream
  string str() const
  {
    string s;
    for (int i = 0; i < 2; ++i)
    {
      s += mc::format("%s%s@%s{", i ? " B" : "A", active[i] ? "" : "(off)", NAMES[stream[i]]);
      for (auto& c : joined[i]) if (c.second) s += c.first + "@" + NAMES[output.at(c.first)] + " ";
      s += "}";
    }
    return s;
  }
  bool admits(int s, int level) const { return active[s] && stream[s] <= level; }
};
static LogStream& streamOf(int s) { return s == 0 ? Alpha::instance() : Beta::instance(); }
static int g_evaluated = 0;
static string evaluate(const string& s) { ++g_evaluated; return s; }

// One statement of each kind; DEBUG and TRACE statements only exist in debug builds, so levels go through the *_LOG macros.
enum { KINDS = 8 };
static const char* KIND[KINDS] = { "LOGGING_LOG", "SLOGGING_LOG", "MLOGGING_LOG", "LOGGING_FMT_LOG", "SLOGGING_FMT_LOG_C", "LOGGING_LOG_CO", "MLOGGING_FMT_LOG", "threadStream" };
static bool g_debug = true;
static bool Debug() { return g_debug; }
template <class S> static void sayOn(int kind, LogLevel l, const string& text)
{
  switch (kind)
  {
  case 0: LOGGING_LOG(S, l, evaluate(text) << flush); break;
  case 1: { LogStream& ls = S::instance(); SLOGGING_LOG(ls, l, evaluate(text) << flush); break; }
  case 2: MLOGGING_LOG(S, l, evaluate(text) << flush); break;
  case 3: LOGGING_FMT_LOG(S, l, "%s", evaluate(text).c_str()); break;
  case 4: { LogStream& ls = S::instance(); SLOGGING_FMT_LOG_C(ls, l, Klass, "%s", evaluate(text).c_str()); break; }
  case 5: LOGGING_LOG_CO(S, l, Klass, "object", evaluate(text) << flush); break;
  case 6: MLOGGING_FMT_LOG(S, l, "%s", evaluate(text).c_str()); break;
  case 7: if (S::instance().isActive() && S::instance().getLogLevel() <= l) { ThreadStream& t = S::instance().threadStream(l); t.setLineLogLevel(l); t << evaluate(text) << flush; } break;
  }
}
static void say(int s, int kind, LogLevel l, const string& text) { if (s == 0) sayOn<Alpha>(kind, l, text); else sayOn<Beta>(kind, l, text); }

//! Logs one message per stream and level and compares what every recording output got with the model.
static void logAll(const Model& m, const vector<int>& kinds, const string& where)
{
  static int n = 0;
  for (auto& r : lc::Recorder::all()) r.second->got.clear();
  map<string, vector<string>> expected;
  for (int s = 0; s < 2; ++s)
    for (int l = eLL_TRACE; l <= eLL_ERROR; ++l)
      for (int k : kinds)
      {
        string text = mc::format("m%d", ++n);
        g_evaluated = 0;
        bool admitted = m.admits(s, l) && (g_debug || (k != 2 && k != 6));
        say(s, k, LogLevel(l), text);
        MC_CHECK(g_evaluated == int(admitted), "evaluation", "%s: %s of level %s on stream %s evaluated its message %d times, expected %d", where.c_str(), KIND[k], NAMES[l], s ? "Beta" : "Alpha", g_evaluated, int(admitted));
        if (admitted) for (auto& c : m.joined[s]) if (c.second && m.output.at(c.first) <= l)
          expected[c.first].push_back(text + " " + NAMES[l] + (s ? " Beta" : " Alpha"));
        mc::transition();
      }
  for (auto& r : lc::Recorder::all())
  {
    vector<string> got;
    for (auto& e : r.second->got) got.push_back(e.text + " " + NAMES[e.level] + " " + e.stream);
    if (got != expected[r.first])
    {
      string a, b; for (auto& e : got) a += e + ", "; for (auto& e : expected[r.first]) b += e + ", ";
      mc::fail("delivery", "%s: output %s with %s: got [%s], expected [%s]", where.c_str(), r.first.c_str(), m.str().c_str(), a.c_str(), b.c_str());
    }
    expected.erase(r.first);
  }
  for (auto& e : expected) if (!e.second.empty()) mc::fail("delivery", "%s: output %s does not exist", where.c_str(), e.first.c_str());
}
template <class T> static void put(const string& key, const T& v) { icl_core::config::setValue("/IclCore/Logging/" + key, v); }
static void start(const vector<string>& args = {})
{
  vector<string> store(1, "program"); store.insert(store.end(), args.begin(), args.end());
  vector<char*> argv; for (auto& a : store) argv.push_back(&a[0]);
  int argc = int(argv.size());
  icl_core::logging::initialize(argc, argv.data());
}
// ---------------------------------------------------------------- the console
static int g_console = -1;
static void openConsole()
{
  string f = mc::scratch() + "/console";
  g_console = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  std::cout.flush(); fflush(stdout);
  dup2(g_console, 1);
}

// ---------------------------------------------------------------- levels and connections from the configuration
static void connectionLines(const string& entry, bool a, bool b)
{
  int n = 0;
  if (a) put(entry + mc::format("/LogStream%d", ++n), string("Alpha"));
  if (b) put(entry + mc::format("/LogStream%d", ++n), string("Beta"));
  if (!a && !b) put(entry + "/LogStream1", string("NoSuchStream"));
}
static void configured()
{
  // all connections of two streams to two outputs, and all levels
  int conn = mc::choose(16, "connections");
  Model m;
  m.stream[0] = mc::choose(6, "level of Alpha"); m.stream[1] = mc::choose(6, "level of Beta");
  m.output["One"] = mc::choose(6, "level of One"); m.output["Two"] = mc::choose(6, "level of Two");
  for (int i = 0; i < 2; ++i)
  {
    string e = i ? "OutputStreamB" : "OutputStreamA", name = i ? "Two" : "One";
    put(e + "/OutputStreamName", string("Rec")); put(e + "/Name", name); put(e + "/LogLevel", string(NAMES[m.output[name]]));
    bool a = conn >> (2 * i) & 1, b = conn >> (2 * i + 1) & 1;
    connectionLines(e, a, b);
    m.joined[0][name] = a; m.joined[1][name] = b;
  }
  put("LogStream1/Name", string("Alpha")); put("LogStream1/LogLevel", string(NAMES[m.stream[0]]));
  put("LogStream2/Name", string("Beta")); put("LogStream2/LogLevel", string(NAMES[m.stream[1]]));
  start();
  logAll(m, { 0 }, "configuration");
  icl_core::logging::shutdown();
}
static void configVariants()
{
  // which parts of an entry are given: name or only the kind, level or default, list or all streams, stream entries or none, duplicates, unknown kinds
  Model m;
  bool named = mc::flip("output named"); int level = mc::choose(7, "output level");
  int list = mc::choose(4, "streams listed"); int streams = mc::choose(4, "stream entries"); int second = mc::choose(4, "second entry");
  int strange = mc::choose(5, "unknown name");
  string name = named ? "One" : "Rec";
  put("OutputStream/OutputStreamName", string("Rec"));
  if (named) put("OutputStream/Name", name);
  m.output[name] = eLL_TRACE;
  if (level < 6) { put("OutputStream/LogLevel", string(NAMES[level])); m.output[name] = level; }
  if (list & 1) put("OutputStream/LogStreamX", string("Alpha"));
  if (list & 2) put("OutputStream/LogStreamY", string("Beta"));
  bool all = list == 0 && strange != 1 && strange != 2;
  m.joined[0][name] = all || (list & 1); m.joined[1][name] = all || (list & 2);
  // an entry that does not fit anything spoils no other one
  switch (strange)
  {
  case 1: put("OutputStream/LogStreamA", string("NoSuchStream")); break;
  case 2: put("OutputStream/LogStreamZ", string("NoSuchStream")); break;
  case 3: put("OutputStrea0/OutputStreamName", string("Rec")); put("OutputStream./OutputStreamName", string("NoSuchKind")); put("OutputStream./LogStream1", string("Beta")); break;
  case 4: put("LogStreamA/Name", string("NoSuchStream")); put("LogStreamA/LogLevel", string("Error")); put("LogStreamB/LogLevel", string("Error")); break;
  }
  if (streams & 1) { put("LogStreamQ/Name", string("Alpha")); put("LogStreamQ/LogLevel", string("Trace")); m.stream[0] = eLL_TRACE; }
  if (streams & 2) { put("LogStreamR/Name", string("Beta")); put("LogStreamR/LogLevel", string("Error")); m.stream[1] = eLL_ERROR; }
  if (second == 1)      // the same output again, for the other streams
  {
    put("OutputStreamZ/OutputStreamName", string("Rec")); put("OutputStreamZ/Name", name);
    put("OutputStreamZ/LogStream1", string("Alpha")); m.joined[0][name] = true;
  }
  else if (second == 2) { put("OutputStreamZ/OutputStreamName", string("NoSuchKind")); put("OutputStreamZ/LogStream1", string("Alpha")); }
  else if (second == 3)
  {
    put("OutputStreamZ/OutputStreamName", string("Rec")); put("OutputStreamZ/Name", string("Two")); put("OutputStreamZ/LogLevel", string("Debug"));
    m.output["Two"] = eLL_DEBUG; m.joined[0]["Two"] = m.joined[1]["Two"] = true;
  }
  start();
  if (level == 6) m.output[name] = lc::Recorder::all()[name]->getLogLevel();   // the level of an output without a configured one is not documented
  logAll(m, { 0, 3 }, "configuration");
  if (mc::flip("configure again")) { LoggingManager::instance().configure(); logAll(m, { 1 }, "after configure()"); }
  icl_core::logging::shutdown();
}
// ---------------------------------------------------------------- direct calls
static void calls()
{
  Model m;
  put("OutputStreamA/OutputStreamName", string("Rec")); put("OutputStreamA/Name", string("One"));
  put("OutputStreamB/OutputStreamName", string("Rec")); put("OutputStreamB/Name", string("Two")); put("OutputStreamB/LogStream1", string("Beta"));
  put("OutputStreamA/LogLevel", string("Info")); put("OutputStreamB/LogLevel", string("Info"));
  start();
  m.output["One"] = m.output["Two"] = eLL_INFO; m.joined[0]["One"] = m.joined[1]["One"] = m.joined[1]["Two"] = true;
  const int depth = mc::thorough() ? 4 : 3;
  static const LogLevel SET[] = { eLL_TRACE, eLL_WARNING, eLL_MUTE };
  string where = "calls";
  logAll(m, { 0 }, where);
  for (int d = 0; d < depth; ++d)
  {
    int op = mc::choose(21, "operation");
    if (op == 0) break;
    --op;
    lc::Recorder* out[2] = { lc::Recorder::all()["One"], lc::Recorder::all()["Two"] };
    const char* on[2] = { "One", "Two" };
    if (op < 4) { int s = op & 1, o = op >> 1; streamOf(s).addOutputStream(out[o]); m.joined[s][on[o]] = true; where += mc::format(" add(%d,%s)", s, on[o]); }
    else if (op < 8) { int s = op & 1, o = (op >> 1) & 1; streamOf(s).removeOutputStream(out[o]); m.joined[s][on[o]] = false; where += mc::format(" remove(%d,%s)", s, on[o]); }
    else if (op < 11) { int s = op == 10 ? 1 : 0; bool v = op == 9; streamOf(s).setActive(v); m.active[s] = v; where += mc::format(" setActive(%d,%d)", s, v); }
    else if (op < 14) { LogLevel l = SET[op - 11]; icl_core::logging::setLogLevel(l); m.stream[0] = m.stream[1] = l; for (auto& o : m.output) o.second = l; where += mc::format(" setLogLevel(%s)", NAMES[l]); }
    else if (op < 17) { LogLevel l = SET[op - 14]; out[0]->setLogLevel(l); m.output["One"] = l; where += mc::format(" One.setLogLevel(%s)", NAMES[l]); }
    else if (op < 19) { LogLevel l = SET[op - 17]; out[1]->setLogLevel(l); m.output["Two"] = l; where += mc::format(" Two.setLogLevel(%s)", NAMES[l]); }
    else { LoggingManager::instance().removeLogOutputStream(out[0], false); m.joined[0]["One"] = m.joined[1]["One"] = false; where += " removeLogOutputStream(One)"; }
    logAll(m, { 0 }, where);
    for (auto& o : m.output) MC_CHECK(lc::Recorder::all()[o.first]->getLogLevel() == LogLevel(o.second), "output-level", "%s: getLogLevel() of %s", where.c_str(), o.first.c_str());
    for (int s = 0; s < 2; ++s)
      MC_CHECK(streamOf(s).isActive() == m.active[s] && streamOf(s).getLogLevel() == LogLevel(m.stream[s]) && streamOf(s).initialLogLevel() == LogLevel(m.stream[s]), "stream-level", "%s: stream %d reports %d at %s", where.c_str(), s, streamOf(s).isActive(), NAMES[streamOf(s).getLogLevel()]);
  }
  icl_core::logging::shutdown();
}
// ---------------------------------------------------------------- kinds of log statements
static void statements()
{
  Model m;
  put("OutputStreamA/OutputStreamName", string("Rec")); put("OutputStreamA/Name", string("One"));
  int l = mc::choose(6, "stream level"), o = mc::choose(6, "output level"), kind = mc::choose(KINDS, "statement"); m.active[0] = mc::flip("Alpha active"); g_debug = mc::flip("Debug()");
  put("OutputStreamA/LogLevel", string(NAMES[o]));
  put("LogStream1/Name", string("Alpha")); put("LogStream1/LogLevel", string(NAMES[l]));
  m.stream[0] = l; m.output["One"] = o; m.joined[0]["One"] = m.joined[1]["One"] = true;
  start();
  Alpha::instance().setActive(m.active[0]);
  logAll(m, { kind }, KIND[kind]);
  // the statements with a fixed level
  lc::Recorder& r = *lc::Recorder::all()["One"]; r.got.clear();
  string expected;
  LogStream& as = Alpha::instance();
#define EACH(L, LEVEL) \
  LOGGING_##L(Alpha, evaluate("a") << flush); LOGGING_##L##_C(Alpha, Klass, evaluate("b") << flush); LOGGING_##L##_CO(Alpha, Klass, "obj", evaluate("c") << flush); \
  LOGGING_FMT_##L(Alpha, "%s", evaluate("d").c_str()); LOGGING_FMT_##L##_C(Alpha, Klass, "%s", evaluate("e").c_str()); LOGGING_FMT_##L##_CO(Alpha, Klass, "obj", "%s", evaluate("f").c_str()); \
  SLOGGING_##L(as, evaluate("g") << flush); SLOGGING_##L##_C(as, Klass, evaluate("h") << flush); SLOGGING_##L##_CO(as, Klass, "obj", evaluate("i") << flush); \
  SLOGGING_FMT_##L(as, "%s", evaluate("j").c_str()); SLOGGING_FMT_##L##_C(as, Klass, "%s", evaluate("k").c_str()); SLOGGING_FMT_##L##_CO(as, Klass, "obj", "%s", evaluate("l").c_str()); \
  MLOGGING_##L(Alpha, evaluate("m") << flush); MLOGGING_##L##_C(Alpha, Klass, evaluate("n") << flush); MLOGGING_##L##_CO(Alpha, Klass, "obj", evaluate("o") << flush); \
  MLOGGING_FMT_##L(Alpha, "%s", evaluate("p").c_str()); MLOGGING_FMT_##L##_C(Alpha, Klass, "%s", evaluate("q").c_str()); MLOGGING_FMT_##L##_CO(Alpha, Klass, "obj", "%s", evaluate("r").c_str()); \
  LLOGGING_##L(Alpha, evaluate("s") << flush); LLOGGING_FMT_##L(Alpha, "%s", evaluate("t").c_str()); \
  if (m.admits(0, LEVEL)) { shown += LEVEL >= o ? (g_debug ? 18 : 12) : 0; evaluated += g_debug ? 18 : 12; \
    if (LEVEL >= o) for (char c = 'a'; c < 's'; ++c) if (g_debug || c < 'm') expected += mc::format("%c%s%s%s;", c, NAMES[LEVEL], strchr("behknq", c) ? "Klass/" : strchr("cfilor", c) ? "Klass/obj" : "/", ""); }
  int shown = 0, evaluated = 0; g_evaluated = 0;
  EACH(ERROR, eLL_ERROR) EACH(WARNING, eLL_WARNING) EACH(INFO, eLL_INFO)
  string got;
  for (auto& e : r.got) got += mc::format("%s%s%s/%s;", e.text.c_str(), NAMES[e.level], e.cls.c_str(), e.object.c_str());
  MC_CHECK(got == expected, "statements", "statements with a fixed level: got %s, expected %s (%s)", got.c_str(), expected.c_str(), m.str().c_str());
  MC_CHECK(g_evaluated == evaluated, "evaluation", "statements with a fixed level evaluated %d messages, expected %d", g_evaluated, evaluated);
  for (auto& e : r.got) MC_CHECK(e.function == "statements" && e.file == __FILE__ && e.line > 100, "origin", "message %s comes from %s:%zu %s()", e.text.c_str(), e.file.c_str(), e.line, e.function.c_str());
  icl_core::logging::shutdown();
}
// ---------------------------------------------------------------- command line option, default output, dynamic streams
static void commandLine()
{
  Model m;
  static const char* OPT[] = { "", "Trace", "Debug", "Info", "Warning", "Error", "Mute", "nonsense", "" };
  int opt = mc::choose(8, "--log-level"), conf = mc::choose(3, "configuration"), spell = opt ? mc::choose(2, "spelling") : 0, set = mc::choose(7, "setLogLevel afterwards");
  openConsole();
  put("Default/Format", string("~E|"));
  if (conf)
  {
    put("OutputStreamA/OutputStreamName", string("Rec")); put("OutputStreamA/Name", string("One")); put("OutputStreamA/LogLevel", string("Warning"));
    m.output["One"] = eLL_WARNING; m.joined[0]["One"] = true; m.joined[1]["One"] = conf == 1;
    if (conf == 2) put("OutputStreamA/LogStream1", string("Alpha"));
    put("LogStream1/Name", string("Beta")); put("LogStream1/LogLevel", string("Debug")); m.stream[1] = eLL_DEBUG;
  }
  else { m.output["Default"] = eLL_INFO; m.joined[0]["Default"] = m.joined[1]["Default"] = true; }
  vector<string> args;
  if (opt) { if (spell) args = { string("--log-level=") + OPT[opt] }; else args = { "-l", OPT[opt] }; }
  start(args);
  if (opt && opt < 7)
  {
    int l = opt - 1;
    m.output["Default"] = l; m.joined[0]["Default"] = m.joined[1]["Default"] = true;
    for (auto& o : m.output) o.second = l;
    m.stream[0] = m.stream[1] = l;
  }
  if (set) { icl_core::logging::setLogLevel(LogLevel(set - 1)); m.stream[0] = m.stream[1] = set - 1; for (auto& o : m.output) o.second = set - 1; }
  // what goes to the console is only complete once the console output has been shut down
  static int n = 0; string console; map<string, vector<string>> expected;
  for (int s = 0; s < 2; ++s) for (int l = eLL_TRACE; l <= eLL_ERROR; ++l) for (int k = 0; k < 2; ++k)
  {
    string text = mc::format("t%d", ++n);
    say(s, k ? 3 : 0, LogLevel(l), text); mc::transition();
    if (m.admits(s, l)) for (auto& c : m.joined[s]) if (c.second && m.output[c.first] <= l) { if (c.first == "Default") console += text + "|"; else expected[c.first].push_back(text); }
  }
  if (conf)
  {
    vector<string> got; for (auto& e : lc::Recorder::all()["One"]->got) got.push_back(e.text);
    MC_CHECK(got == expected["One"], "delivery", "--log-level %s, configuration %d, setLogLevel %d: output One got %zu messages, expected %zu", OPT[opt], conf, set - 1, got.size(), expected["One"].size());
  }
  icl_core::logging::shutdown();
  std::cout.flush();
  string got; char b[65536]; ssize_t k = pread(g_console, b, sizeof b, 0); got.assign(b, k > 0 ? k : 0);
  MC_CHECK(got == console, "console", "--log-level %s, configuration %d, setLogLevel %d: the console got [%s], expected [%s] (%s)", OPT[opt], conf, set - 1, got.c_str(), console.c_str(), m.str().c_str());
}
static void dynamic()
{
  // a stream that is created after initialisation, connected through a second configure()
  int conf = mc::choose(4, "configuration"), level = mc::choose(7, "level of the new stream");
  string e = "OutputStreamA";
  put(e + "/OutputStreamName", string("Rec")); put(e + "/Name", string("One")); put(e + "/LogLevel", string("Trace"));
  if (conf & 1) put(e + "/LogStream1", string("Late"));
  if (conf & 2) put(e + "/LogStream2", string("Alpha"));
  if (level < 6) { put("LogStream1/Name", string("Late")); put("LogStream1/LogLevel", string(NAMES[level])); }
  start();
  bool before = conf == 0 || (conf & 1);
  LogStream* late = new LogStream("Late");
  lc::Recorder& r = *lc::Recorder::all()["One"];
  auto count = [&](LogStream& s) { r.got.clear(); for (int l = eLL_TRACE; l <= eLL_ERROR; ++l) SLOGGING_LOG(s, LogLevel(l), "x" << flush); return int(r.got.size()); };
  int early = count(Alpha::instance());
  MC_CHECK(early == ((conf == 0 || (conf & 2)) ? 3 : 0), "configured-early", "configuration %d, a listed stream does not exist yet: %d of 5 messages of Alpha", conf, early);
  MC_CHECK(count(*late) == 0, "unregistered", "a log stream nobody connected writes to an output");
  LoggingManager::instance().registerLogStream(late);
  MC_CHECK(count(*late) == 0, "unconfigured", "a registered, but not yet configured log stream writes to an output");
  LoggingManager::instance().configure();
  int l = level < 6 ? level : eLL_INFO, want = before ? 5 - l : 0;
  int got = count(*late);
  MC_CHECK(got == want, "configured-late", "configuration %d: %d of 5 messages of a late stream at level %s arrive, expected %d", conf, got, NAMES[l], want);
  MC_CHECK(late->getLogLevel() == l, "late-level", "level of a late stream");
  int alpha = count(Alpha::instance());
  MC_CHECK(alpha == ((conf == 0 || (conf & 2)) ? 3 : 0), "configured-late", "configuration %d: %d of 5 messages of Alpha", conf, alpha);
  if (mc::flip("remove the output"))
  {
    LoggingManager::instance().removeLogOutputStream(&r, mc::flip("from the list"));
    MC_CHECK(count(*late) == 0 && count(Alpha::instance()) == 0, "removed", "an output removed from the manager still gets messages");
  }
  else if (mc::flip("delete the stream"))
  {
    delete late; LoggingManager::instance().configure();
    alpha = count(Alpha::instance());
    MC_CHECK(alpha == ((conf == 0 || (conf & 2)) ? 3 : 0), "configured-late", "configuration %d after deleting the late stream: %d of 5 messages of Alpha", conf, alpha);
  }
  icl_core::logging::shutdown();
}
static void levelNames()
{
  static const string T[] = { "Trace", "Debug", "Info", "Warning", "Error", "Mute", "", "trace", "TRACE", " Trace", "Trace ", "Trac", "Tracee", "Mut", "None", "0", string("Info\0x", 6), string("Info\0", 5) };
  for (int i = 0; i < int(sizeof T / sizeof *T); ++i)
    for (LogLevel first : LEVELS)
    {
      LogLevel l = first; bool ok = stringToLogLevel(T[i], l);
      MC_CHECK(ok == (i < 6) && l == (i < 6 ? LogLevel(i) : first), "level-name", "stringToLogLevel(%s) returns %d and level %d (was %d)", mc::quote(T[i]).c_str(), ok, int(l), int(first));
      mc::transition();
    }
  for (int i = -3; i < 10; ++i) MC_CHECK(string(logLevelDescription(LogLevel(i))) == (i >= 0 && i < 6 ? NAMES[i] : ""), "level-name", "logLevelDescription(%d) is %s", i, logLevelDescription(LogLevel(i)));
}
static void quickDebug()
{
  // the QuickDebug stream: all of its messages go to the given file, nothing of the other streams
  string f = mc::scratch() + "/quick.log"; int conf = mc::choose(3, "configuration");
  put("OutputStreamA/OutputStreamName", string("Rec"));
  string name = conf == 0 ? "One" : "QuickDebug";
  put("OutputStreamA/Name", name);
  if (conf == 2) { put("OutputStreamB/OutputStreamName", string("Rec")); put("OutputStreamB/Name", string("QuickDebug1")); }
  unlink(f.c_str());
  start({ "--quick-debug=" + f });
  for (int s = 0; s < 2; ++s) say(s, 0, eLL_ERROR, "other");
  string want;
  for (int l = eLL_TRACE; l <= eLL_ERROR; ++l) { string t = mc::format("quick%d", l); LOGGING_LOG(QuickDebug, LogLevel(l), t << endl); want += t + ";"; }
  int direct = 0; for (auto& e : lc::Recorder::all()[name]->got) direct += e.text.compare(0, 5, "quick") == 0;
  MC_CHECK(direct == 5, "quick-debug", "the configured output %s gets %d of 5 messages of QuickDebug", name.c_str(), direct);
  icl_core::logging::shutdown();
  std::ifstream in(f.c_str()); string line, got;
  while (std::getline(in, line)) { if (line.find("OPENED") != string::npos || line.empty()) continue; size_t p = line.rfind(' '); got += line.substr(p == string::npos ? 0 : p + 1) + ";"; }
  MC_CHECK(got == want, "quick-debug", "the quick debug file holds %s, expected %s", got.c_str(), want.c_str());
}

int main(int argc, char** argv)
{
  setenv("TZ", "UTC", 1);
  return mc::run(argc, argv, {
    mc::Scenario("configured", configured).forked().timeout(60),
    mc::Scenario("variants", configVariants).forked().timeout(60),
    mc::Scenario("calls", calls).forked().timeout(60),
    mc::Scenario("statements", statements).forked().timeout(60),
    mc::Scenario("command-line", commandLine).forked().timeout(60),
    mc::Scenario("dynamic", dynamic).forked().timeout(60),
    mc::Scenario("quick-debug", quickDebug).forked().timeout(60),
    mc::Scenario("level-names", levelNames).forked().timeout(60) });
}
