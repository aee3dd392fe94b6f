// P02: performance statistics match the recorded measurements.
#define IC_PERFORMANCE_MONITOR
#include "logging.h"
#include <cmath>
#include <sstream>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include "icl_core_performance_monitor/PerformanceMonitor.h"

using std::string; using std::vector; using std::map; using std::pair;
typedef icl_core::perf_mon::PerformanceMonitor Monitor;
REGISTER_LOG_OUTPUT_STREAM(Rec, &lc::Recorder::create)

// ---------------------------------------------------------------- the clock
static bool g_fake = false; static timespec g_now;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
  timespec t = g_now; if (!g_fake) syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
extern "C" int clock_gettime(clockid_t c, timespec* t) noexcept
{
  if (g_fake && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { *t = g_now; return 0; }
  return int(syscall(SYS_clock_gettime, c, t));
}

namespace {

void advance(long us) { g_now.tv_nsec += us * 1000; g_now.tv_sec += g_now.tv_nsec / 1000000000; g_now.tv_nsec %= 1000000000; }
int64_t nowUs() { return int64_t(g_now.tv_sec) * 1000000 + g_now.tv_nsec / 1000; }

void setup()
{
  static bool done = false;
  if (done) return;
  done = true;
  icl_core::config::setValue("/IclCore/Logging/OutputStreamA/OutputStreamName", string("Rec"));
  icl_core::config::setValue("/IclCore/Logging/OutputStreamA/Name", string("One"));
  icl_core::config::setValue("/IclCore/Logging/OutputStreamA/LogLevel", string("Trace"));
  icl_core::config::setValue("/IclCore/Logging/LogStream1/Name", string("Performance"));
  icl_core::config::setValue("/IclCore/Logging/LogStream1/LogLevel", string("Trace"));
  char name[] = "program"; char* argv[] = { name, nullptr }; int argc = 1;
  lg::initialize(argc, argv);
}
lc::Recorder& rec() { return *lc::Recorder::all()["One"]; }
vector<string> texts() { vector<string> t; for (auto& r : rec().got) t.push_back(r.text); rec().got.clear(); return t; }

// ---------------------------------------------------------------- reference
typedef pair<string, string> Key;
struct Model
{
  map<Key, vector<double> > data, nontime;
  map<Key, double> fixed; bool fixed_known = true;
  map<string, int64_t> timer;
  std::set<string> enabled; bool all = false, on = true, print = true;
  bool may(const string& p) const { return on && (all || enabled.count(p)); }
};

bool close(double a, double b) { return std::fabs(a - b) <= 1e-5 * std::max(std::fabs(a), std::fabs(b)) + 1e-9; }

// value of "key: 1.25 ms" within a text
bool value(const string& text, const string& key, double& v)
{
  size_t p = text.find("\n" + key + ": ");
  if (p == string::npos) return false;
  string r = text.substr(p + key.size() + 3); r = r.substr(0, r.find('\n'));
  if (r.size() > 3 && r.substr(r.size() - 3) == " ms") r.resize(r.size() - 3);
  char* e = nullptr; v = strtod(r.c_str(), &e);
  return *e == 0 && !r.empty();
}
bool count(const string& text, const string& before, double& v)
{
  size_t p = text.find("\n" + before);
  if (p == string::npos) return false;
  v = strtod(text.c_str() + p + 1 + before.size(), nullptr); return true;
}

void statistics(const string& section, const Key& k, const vector<double>& want, bool time, const string& where)
{
  string name = k.second; double n = -1, avg = 0, med = 0, mi = 0, ma = 0;
  string what = mc::format("%s: %s::%s", where.c_str(), k.first.c_str(), name.c_str());
  MC_CHECK(count(section, time ? "Called " : "num entries: ", n), "format", "%s: no number of entries in %s", what.c_str(), mc::quote(section).c_str());
  MC_CHECK(size_t(n) == want.size(), "count", "%s: %g entries are reported instead of %zu", what.c_str(), n, want.size());
  bool found = value(section, name + "_avg", avg) && value(section, name + "_median", med) && value(section, name + "_min", mi) && value(section, name + "_max", ma);
  if (want.empty())
  {
    MC_CHECK(!found || (avg == 0 && med == 0 && mi == 0 && ma == 0), "empty", "%s: the statistics of no entries are %g, %g, %g, %g", what.c_str(), avg, med, mi, ma);
    return;
  }
  MC_CHECK(found, "format", "%s: values missing in %s", what.c_str(), mc::quote(section).c_str());
  vector<double> s(want); std::sort(s.begin(), s.end());
  double sum = 0; for (double d : s) sum += d;
  MC_CHECK(close(avg, sum / double(s.size())), "average", "%s: the average is %g instead of %g", what.c_str(), avg, sum / double(s.size()));
  MC_CHECK(close(mi, s.front()) && close(ma, s.back()), "extremes", "%s: minimum and maximum are %g, %g instead of %g, %g", what.c_str(), mi, ma, s.front(), s.back());
  double lo = s[(s.size() - 1) / 2], hi = s[s.size() / 2];
  MC_CHECK(med >= lo - 1e-5 * std::fabs(lo) - 1e-9 && med <= hi + 1e-5 * std::fabs(hi) + 1e-9, "median", "%s: the median is %g, the middle is between %g and %g", what.c_str(), med, lo, hi);
}

// the sections "Summary for prefix::name" of a text
vector<pair<string, string> > sections(const string& text)
{
  vector<pair<string, string> > out; size_t p = 0; const string mark = "Summary for ";
  vector<size_t> at;
  while ((p = text.find(mark, p)) != string::npos) { if (text.compare(p + mark.size(), 7, "prefix ") != 0) at.push_back(p); p += mark.size(); }
  for (size_t i = 0; i < at.size(); ++i)
  {
    string s = text.substr(at[i], i + 1 < at.size() ? at[i + 1] - at[i] : string::npos);
    string head = s.substr(mark.size(), s.find('\n') - mark.size());
    out.push_back({ head, s });
  }
  return out;
}

void prefixSummary(const string& text, const string& prefix, const Model& m, const string& where)
{
  size_t t = text.find("#### Time data"), n = text.find("#### Non-time data"), st = text.find("#### Static data");
  string fixed = st == string::npos ? "" : text.substr(st, std::min(t, n) == string::npos ? string::npos : std::min(t, n) - st);
  string time = t == string::npos ? "" : text.substr(t, n == string::npos || n < t ? string::npos : n - t);
  string non = n == string::npos ? "" : text.substr(n);
  for (int k = 0; k < 2; ++k)
  {
    const map<Key, vector<double> >& d = k ? m.nontime : m.data;
    map<string, const vector<double>*> want; for (auto& e : d) if (e.first.first == prefix) want[e.first.second] = &e.second;
    vector<pair<string, string> > got = sections(k ? non : time);
    for (auto& s : got)
    {
      string name; bool known = false;
      if (s.first.compare(0, prefix.size() + 2, prefix + "::") == 0) { name = s.first.substr(prefix.size() + 2); known = want.count(name) > 0; }
      MC_CHECK(known, "unknown-reported", "%s: %s is reported under the prefix %s although nothing of it was recorded there", where.c_str(), s.first.c_str(), mc::quote(prefix).c_str());
      statistics(s.second, Key(prefix, name), *want[name], k == 0, where);
      want.erase(name);
    }
    MC_CHECK(want.empty(), "not-reported", "%s: %s::%s is not reported", where.c_str(), prefix.c_str(), want.begin()->first.c_str());
  }
  if (m.fixed_known)
  {
    size_t lines = 0;
    for (auto& e : m.fixed)
    {
      if (e.first.first != prefix) continue;
      double v = 0; ++lines;
      MC_CHECK(value(fixed, e.first.second, v) && close(v, e.second), "static-data", "%s: the static data %s::%s is not reported as %g", where.c_str(), prefix.c_str(), e.first.second.c_str(), e.second);
    }
    size_t have = 0; for (size_t i = fixed.find('\n'); i != string::npos && i + 1 < fixed.size(); i = fixed.find('\n', i + 1)) if (fixed[i + 1] != '\n') ++have;
    MC_CHECK(have == lines, "static-data", "%s: %zu static data are reported under %s instead of %zu", where.c_str(), have, mc::quote(prefix).c_str(), lines);
  }
}
string headline(const string& t) { const string b = "Begin of Summary for prefix "; size_t p = t.find(b); if (p == string::npos) return "?"; p += b.size(); return t.substr(p, t.find(" ###", p) - p); }

const char* PREFIX[] = { "", "p", "p::q", "r" };

void report(const Model& m)
{
  texts();
  for (const char* p : PREFIX)
  {
    Monitor::printSummaryFromPrefix(p);
    vector<string> t = texts();
    MC_CHECK(t.size() == 1, "report", "a summary of the prefix %s took %zu messages", p, t.size());
    prefixSummary(t[0], p, m, "printSummaryFromPrefix");
  }
  for (const char* p : PREFIX)
    for (const char* n : { "n", "m", "q::n", "unknown" })
    {
      Monitor::printSummary(p, n);
      vector<string> t = texts();
      MC_CHECK(t.size() == 1, "report", "a summary took %zu messages", t.size());
      auto it = m.data.find(Key(p, n));
      statistics(t[0], Key(p, n), it == m.data.end() ? vector<double>() : it->second, true, "printSummary");
    }
  Monitor::printSummaryAll();
  vector<string> t = texts();
  std::set<string> seen;
  for (auto& s : t)
  {
    string p = headline(s);
    MC_CHECK(seen.insert(p).second, "all", "the prefix %s is reported twice", p.c_str());
    prefixSummary(s, p, m, "printSummaryAll");
  }
  for (auto& d : m.data) if (m.may(d.first.first)) MC_CHECK(seen.count(d.first.first), "all", "printSummaryAll() does not report the enabled prefix %s", mc::quote(d.first.first).c_str());
  for (auto& d : m.nontime) if (m.may(d.first.first)) MC_CHECK(seen.count(d.first.first), "all", "printSummaryAll() does not report the enabled prefix %s", mc::quote(d.first.first).c_str());
  for (auto& d : m.fixed) if (m.fixed_known && m.may(d.first.first)) MC_CHECK(seen.count(d.first.first), "all", "printSummaryAll() does not report the enabled prefix %s", mc::quote(d.first.first).c_str());
  if (m.on && !m.all) for (auto& p : m.enabled) MC_CHECK(seen.count(p), "all", "printSummaryAll() does not report the enabled prefix %s", mc::quote(p).c_str());
}

const char* OPS[] = {
  "start t", "start u", "measurement t -> p::n", "measurement u -> ::n", "measurement t -> (p::q)::n", "startStop t -> p::n", "startStop w -> p::m", "startStop u -> r::n",
  "addData p::n", "addData p::(q::n)", "addData (p::q)::n", "addData ::m", "addNonTimeData p::n", "addNonTimeData r::(q::n)", "addStaticData p::n", "addStaticData (p::q)::m",
  "enable p", "enable p::q", "disable p", "disable ''", "enableAll(true)", "enableAll(false)", "switch off", "switch on", "do not print", "report", "initialize" };
enum { NOPS = sizeof OPS / sizeof *OPS };

bool step(Model& m, int op, int i)
{
  static const long STEP[] = { 1000, 2500, 7125, 333, 40000, 11, 123456, 500 };
  advance(STEP[i % 8]);
  double v = 1.5 * (i + 1) * (i % 2 ? -1 : 1), r = 0; size_t printed = 0;
  auto measure = [&](const char* timer, const char* p, const char* n) {
    double ms = double(nowUs() - m.timer[timer]) / 1000.0;
    r = Monitor::measurement(timer, n, p);
    if (!m.may(p)) { MC_CHECK(r == 0, "disabled", "a disabled measurement returned %g", r); return; }
    m.data[Key(p, n)].push_back(ms); printed = m.print;
    MC_CHECK(close(r, ms), "measured", "a measurement returned %g ms instead of %g ms", r, ms);
  };
  auto startStop = [&](const char* timer, const char* p, const char* n) {
    bool known = m.timer.count(timer); double ms = known ? double(nowUs() - m.timer[timer]) / 1000.0 : 0;
    r = Monitor::startStop(timer, n, p);
    if (!m.may(p)) { MC_CHECK(r == 0, "disabled", "a disabled measurement returned %g", r); return; }
    m.timer[timer] = nowUs();
    MC_CHECK(close(r, ms), "measured", "startStop() returned %g ms instead of %g ms", r, ms);
    if (known) { m.data[Key(p, n)].push_back(ms); printed = m.print; }
  };
  auto has = [&](const char* t) { return m.timer.count(t) > 0; };
  texts();
  switch (op)
  {
    case 0: case 1: { const char* t = op ? "u" : "t"; PERF_MON_START(t); if (m.on) m.timer[t] = nowUs(); break; }
    case 2: if (!has("t")) return false; measure("t", "p", "n"); break;
    case 3: if (!has("u")) return false; measure("u", "", "n"); break;
    case 4: if (!has("t")) return false; measure("t", "p::q", "n"); break;
    case 5: startStop("t", "p", "n"); break;
    case 6: startStop("w", "p", "m"); break;
    case 7: startStop("u", "r", "n"); break;
    case 8: PERF_MON_ADD_DATA_P("n", v, "p"); if (m.may("p")) m.data[Key("p", "n")].push_back(v); break;
    case 9: Monitor::addData("q::n", v, "p"); if (m.may("p")) m.data[Key("p", "q::n")].push_back(v); break;
    case 10: Monitor::addData("n", v, "p::q"); if (m.may("p::q")) m.data[Key("p::q", "n")].push_back(v); break;
    case 11: PERF_MON_ADD_DATA("m", v); if (m.may("")) m.data[Key("", "m")].push_back(v); break;
    case 12: PERF_MON_ADD_DATA_NONTIME_P("n", v, "p"); if (m.may("p")) m.nontime[Key("p", "n")].push_back(v); break;
    case 13: Monitor::addNonTimeData("q::n", v, "r"); if (m.may("r")) m.nontime[Key("r", "q::n")].push_back(v); break;
    case 14: PERF_MON_ADD_STATIC_DATA_P("n", v, "p"); if (m.may("p")) m.fixed[Key("p", "n")] = v; break;
    case 15: Monitor::addStaticData("m", v, "p::q"); if (m.may("p::q")) m.fixed[Key("p::q", "m")] = v; break;
    case 16: PERF_MON_ENABLE("p"); m.enabled.insert("p"); break;
    case 17: PERF_MON_ENABLE("p::q"); m.enabled.insert("p::q"); break;
    case 18: PERF_MON_DISABLE("p"); m.enabled.erase("p"); break;
    case 19: PERF_MON_DISABLE(""); m.enabled.erase(""); break;
    case 20: PERF_MON_ENABLE_ALL(true); m.all = true; break;
    case 21: PERF_MON_ENABLE_ALL(false); m.all = false; break;
    case 22: Monitor::getInstance()->m_enabled = false; m.on = false; break;
    case 23: Monitor::getInstance()->m_enabled = true; m.on = true; break;
    case 24: Monitor::getInstance()->m_print_stop = false; m.print = false; break;
    case 25: report(m); break;
    case 26: PERF_MON_INITIALIZE(2, 3); m.data.clear(); m.nontime.clear(); if (!m.fixed.empty()) m.fixed_known = false; m.enabled.insert(""); break;
  }
  size_t got = texts().size();
  MC_CHECK(got == printed, "printed", "%s printed %zu messages instead of %zu", OPS[op], got, printed);
  return true;
}

// start: 0 untouched, 1 initialised with p enabled and timers running, 2 with everything enabled and data
void history(int start, int depth)
{
  setup();
  g_now.tv_sec = 1700000000; g_now.tv_nsec = 999000000; g_fake = true;
  Model m;
  static const vector<int> PRE[] = { {}, { 26, 16, 0, 1 }, { 26, 20, 0, 1, 6, 2, 8, 10, 12, 14, 6 }, { 26, 16, 17, 0, 8, 10, 15, 2 } };
  int i = 0;
  for (int op : PRE[start]) { mc::trace("(%s)", OPS[op]); step(m, op, i++); }
  for (int k = 0; k < depth; ++k)
  {
    int op = mc::choose(NOPS, "operation");
    mc::trace("%s", OPS[op]); mc::transition();
    if (!step(m, op, i++)) mc::prune();
  }
  report(m);
  report(m);
  g_fake = false;
}

// every list of values to a length: statistics of a single name
void lists(int n)
{
  setup();
  static const double V[] = { 0, 1, -2.5, 1e6, 3, 0.001 };
  Model m; PERF_MON_INITIALIZE(1, 2); m.enabled.insert("");
  int len = mc::choose(n + 1, "length"); bool time = mc::flip("time");
  for (int i = 0; i < len; ++i)
  {
    double v = mc::pick(V, "value"); mc::trace("%g", v);
    if (time) Monitor::addData("n", v, ""); else Monitor::addNonTimeData("n", v, "");
    (time ? m.data : m.nontime)[Key("", "n")].push_back(v);
  }
  PERF_MON_SUMMARY_ALL_DEBUG;
  PERF_MON_SUMMARY_ALL_TRACE;
  report(m);
}

} // namespace

int main(int argc, char** argv)
{
  bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
  vector<mc::Scenario> s = {
    mc::Scenario("untouched", [th] { history(0, th ? 4 : 3); }).forked(),
    mc::Scenario("running", [th] { history(1, th ? 4 : 3); }).forked(),
    mc::Scenario("everything", [th] { history(2, th ? 4 : 3); }).forked(),
    mc::Scenario("two-prefixes", [th] { history(3, th ? 4 : 3); }).forked(),
    mc::Scenario("lists", [th] { lists(th ? 5 : 4); }).forked() };
  for (auto& x : s) x.before = setup;
  return mc::run(argc, argv, s);
}
