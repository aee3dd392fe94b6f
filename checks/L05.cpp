// L05: message text is kept intact up to the limit and cut there safely.
#include "logging.h"
#include <cmath>
#include <cfloat>
#include <climits>
#include <memory>
#include <new>
#include <cstdlib>
#include <sstream>
using std::string; using std::vector;
using namespace lg;

// Memory never starts out as zeros.
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 0x5a, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

DECLARE_LOG_STREAM(Alpha)
REGISTER_LOG_STREAM(Alpha)
REGISTER_LOG_OUTPUT_STREAM(Rec, &lc::Recorder::create)
static const size_t LIMIT = cDEFAULT_LOG_SIZE;

static lc::Recorder& rec()
{
  static bool done = false;
  if (!done)
  {
    done = true;
    icl_core::config::setValue("/IclCore/Logging/OutputStreamA/OutputStreamName", string("Rec"));
    icl_core::config::setValue("/IclCore/Logging/OutputStreamA/Name", string("One"));
    icl_core::config::setValue("/IclCore/Logging/OutputStreamA/LogLevel", string("Trace"));
    icl_core::config::setValue("/IclCore/Logging/LogStream1/Name", string("Alpha"));
    icl_core::config::setValue("/IclCore/Logging/LogStream1/LogLevel", string("Trace"));
    char name[] = "program"; char* argv[] = { name, nullptr }; int argc = 1;
    icl_core::logging::initialize(argc, argv);
  }
  lc::Recorder& r = *lc::Recorder::all()["One"];
  return r;
}
//! A text in a buffer that ends right behind it.
struct Exact { std::unique_ptr<char[]> p; size_t n; explicit Exact(const string& s) : p(new char[s.size() + 1]), n(s.size()) { memcpy(p.get(), s.c_str(), n + 1); } const char* c() const { return p.get(); } };
static string body(size_t n, int seed = 0) { string s(n, 'x'); for (size_t i = 0; i < n; ++i) s[i] = char('a' + (i * 7 + i / 26 + seed) % 26); return s; }

//! What a message of the whole text \a full may look like: all of it, or cut at the limit (the last places are reserved for the line break and the end of the text).
static void text(const string& got, const string& full, bool line_end, const char* key, const string& where)
{
  string t = got;
  if (line_end)
  {
    MC_CHECK(!t.empty() && t[t.size() - 1] == '\n', "line-break", "%s: the message does not end with its line break", where.c_str());
    t.erase(t.size() - 1);
  }
  MC_CHECK(got.size() <= LIMIT, "limit", "%s: a message of %zu characters, limit %zu", where.c_str(), got.size(), LIMIT);
  const bool whole = full.size() + 2 <= LIMIT;
  bool ok = whole ? t == full : (t.size() + 2 >= LIMIT && t.size() <= full.size() && full.compare(0, t.size(), t) == 0);
  if (!ok)
  {
    size_t d = 0; while (d < t.size() && d < full.size() && t[d] == full[d]) ++d;
    mc::fail(key, "%s: got %zu characters of %zu, differing from place %zu on: %s, expected %s", where.c_str(), t.size(), full.size(), d, mc::quote(t.substr(d, 40)).c_str(), mc::quote(full.substr(d, 40)).c_str());
  }
}
static void one(lc::Recorder& r, const string& full, bool line_end, const char* key, const string& where)
{
  MC_CHECK(r.got.size() == 1, "count", "%s: %zu messages, expected one", where.c_str(), r.got.size());
  text(r.got[0].text, full, line_end, key, where);
  mc::transition();
  // the next message starts empty
  r.got.clear();
  LOGGING_LOG(Alpha, eLL_INFO, "next" << flush);
  MC_CHECK(r.got.size() == 1 && r.got[0].text == "next", "next", "%s: the next message reads %s", where.c_str(), r.got.empty() ? "nothing" : mc::quote(r.got[0].text.substr(0, 60)).c_str());
  r.got.clear();
}
// ---------------------------------------------------------------- values
template <class T> static void value(const T& v, const string& expected, const char* type)
{
  lc::Recorder& r = rec();
  static const int PRE[] = { 0, 1, 2020, 2035, 2040, 2043, 2044, 2045, 2046, 2047, 2048, 2100 };
  for (int pre : PRE) for (int end = 0; end < 2; ++end)
  {
    r.got.clear();
    string p = body(pre); Exact e(p);
    if (end) { LOGGING_LOG(Alpha, eLL_INFO, e.c() << v << "|" << endl); } else { LOGGING_LOG(Alpha, eLL_INFO, e.c() << v << "|" << flush); }
    one(r, p + expected + "|", end == 1, "value", mc::format("%s %s behind %d characters", type, expected.substr(0, 40).c_str(), pre));
  }
}
template <class T> static void integers(const char* type)
{
  typedef std::numeric_limits<T> L;
  vector<T> v = { T(0), T(1), T(9), T(10), T(99), T(100), T(-1), T(L::max() - 1), L::max(), L::min(), T(L::min() + 1), T(L::max() / 10), T(65), T(127) };
  T x = v[mc::choose(int(v.size()), "value")];
  value(x, L::is_signed ? std::to_string((long long)x) : std::to_string((unsigned long long)x), type);
}
static void values()
{
  switch (mc::choose(15, "type"))
  {
  case 0: integers<uint8_t>("uint8_t"); break;
  case 1: integers<int8_t>("int8_t"); break;
  case 2: integers<uint16_t>("uint16_t"); break;
  case 3: integers<int16_t>("int16_t"); break;
  case 4: integers<uint32_t>("uint32_t"); break;
  case 5: integers<int32_t>("int32_t"); break;
  case 6: integers<uint64_t>("uint64_t"); break;
  case 7: integers<int64_t>("int64_t"); break;
  case 8:
  {
    static const double V[] = { 0, -0.0, 1, -1, 0.5, 1e-7, 123456.789, 1e15, 1e20, 1e85, 1e90, 1e91, 1e92, 1e93, 1e94, -1e92, -1e93, 1e100, 1e150, 1e300, DBL_MAX, -DBL_MAX, DBL_MIN, HUGE_VAL, -HUGE_VAL, NAN };
    double d = V[mc::choose(int(sizeof V / sizeof *V), "value")];
    value(d, mc::format("%f", d), "double"); break;
  }
  case 9: { bool b = mc::flip("value"); value(b, b ? "True" : "False", "bool"); break; }
  case 10: { int i = mc::choose(3, "value"); void* p = i == 0 ? nullptr : i == 1 ? (void*)0x7fffffffffff : (void*)~0ul; value(p, mc::format("%p", p), "pointer"); break; }
  case 11:
  {
    static const int64_t S[] = { 0, 1, 59, 60, 61, 3599, 3600, 3601, 86400, 1000000000 };
    static const int64_t N[] = { 0, 1, 999, 1000, 1001, 999000, 1000000, 1500000, 250000000, 999999999 };
    int64_t s = S[mc::choose(10, "seconds")], n = N[mc::choose(10, "nanoseconds")];
    lc::Recorder& r = rec(); r.got.clear();
    icl_core::TimeSpan span(s, n);
    LOGGING_LOG(Alpha, eLL_INFO, span << flush);
    // the terms add up to the value, in the units printed
    string t = r.got.size() == 1 ? r.got[0].text : "?"; __int128 sum = 0; size_t i = 0; bool ok = !t.empty();
    while (ok && i < t.size())
    {
      size_t b = i; __int128 v = 0; while (i < t.size() && isdigit(t[i])) v = v * 10 + (t[i++] - '0');
      size_t u = i; while (i < t.size() && isalpha(t[i])) ++i;
      string unit = t.substr(u, i - u);
      int64_t f = unit == "h" ? 3600000000000ll : unit == "m" ? 60000000000ll : unit == "s" ? 1000000000 : unit == "ms" ? 1000000 : unit == "us" ? 1000 : unit == "ns" ? 1 : 0;
      ok = f && u > b; sum += v * f;
    }
    MC_CHECK(ok && sum == __int128(s) * 1000000000 + n, "span", "a span of %lld s %lld ns reads %s", (long long)s, (long long)n, t.c_str());
    break;
  }
  case 12:
  {
    static const int64_t S[] = { 0, 951782400, 1234567890, 4102444800ll };
    icl_core::TimeStamp t(S[mc::choose(4, "time")], 0);
    value(t, t.formatIso8601(), "TimeStamp"); break;
  }
  case 13: { string s = mc::pick(vector<string>{ "", "text", "%d %s %n", "\n", "\xff\x01" }, "text"); value(s, s, "string"); value(s.c_str(), s, "char*"); break; }
  case 14: { float f = mc::pick(vector<float>{ 0.f, 1.5f, FLT_MAX, -FLT_MAX, FLT_MIN }, "value"); value(f, mc::format("%f", f), "float"); break; }
  }
}
// ---------------------------------------------------------------- sequences of insertions
static const int LEN[] = { 0, 1, 7, 1000, 1023, 1024, 2040, 2043, 2044, 2045, 2046, 2047, 2048, 2049, 4096, 6000 };
enum { LENS = sizeof LEN / sizeof *LEN };
static void insertions()
{
  lc::Recorder& r = rec(); r.got.clear();
  int end = mc::choose(3, "ended by"), n = 0; string full; vector<Exact> parts; vector<string> strings; string where;
  for (; n < 3; ++n)
  {
    int i = mc::choose(LENS + 1, "length");
    if (i == 0) break;
    string b = body(LEN[i - 1], n); full += b; parts.emplace_back(b); strings.push_back(b); where += mc::format("%d ", LEN[i - 1]);
  }
  where = "insertions of " + where + "characters";
  ThreadStream& t = Alpha::instance().threadStream(eLL_INFO);
  t.setLineLogLevel(eLL_INFO);
  for (int i = 0; i < n; ++i) { if (i & 1) t << strings[i]; else t << parts[i].c(); }
  switch (end)
  {
  case 0: t << flush; break;
  case 1: t << endl; break;
  case 2: { Exact p("<printed>"); t.printf("%s%d", p.c(), 42); full += "<printed>42"; break; }
  }
  one(r, full, end == 1, "insertion", where);
}
static void printed()
{
  lc::Recorder& r = rec(); r.got.clear();
  int pre = LEN[mc::choose(LENS, "length before")], n = LEN[mc::choose(LENS, "printed length")], way = mc::choose(4, "statement"); string a = body(pre), b = body(n, 3); Exact ea(a), eb(b);
  LogStream& s = Alpha::instance(); string full = a + b;
  switch (way)
  {
  case 0: { ThreadStream& t = s.threadStream(eLL_INFO); t.setLineLogLevel(eLL_INFO); t << ea.c(); t.printf("%s", eb.c()); break; }
  case 1: { ThreadStream& t = s.threadStream(eLL_INFO); t.setLineLogLevel(eLL_INFO); t << ea.c(); t.printf(eb.c()); break; }
  case 2: LOGGING_FMT_LOG(Alpha, eLL_INFO, "%s%s", ea.c(), eb.c()); break;
  case 3: SLOGGING_LOG(s, eLL_INFO, ea.c()); SLOGGING_FMT_LOG(s, eLL_INFO, "%s", eb.c()); break;    // an unfinished message is continued by the next statement of its level
  }
  one(r, full, false, "printf", mc::format("%d characters, then %d printed", pre, n));
}
static void raw()
{
  // write() keeps the given number of places free
  lc::Recorder& r = rec(); r.got.clear();
  static const int RES[] = { 0, 1, 2, 5, 100, 2045, 2046, 2047, 2048, 5000 };
  int pre = LEN[mc::choose(LENS, "length before")], n = LEN[mc::choose(LENS, "length")], res = RES[mc::choose(10, "places kept free")]; string a = body(pre), b = body(n, 5); Exact ea(a), eb(b);
  ThreadStream& t = Alpha::instance().threadStream(eLL_INFO); t.setLineLogLevel(eLL_INFO);
  t << ea.c(); t.write(eb.c(), n, res); t << "end" << flush;
  MC_CHECK(r.got.size() == 1, "count", "%zu messages", r.got.size());
  // a prefix of the first text, then a prefix of the second, then as much of "end" as fits
  const string& g = r.got[0].text;
  size_t ka = std::min(a.size(), LIMIT - 2); string rest = g.substr(std::min(ka, g.size()));
  MC_CHECK(g.compare(0, ka, a, 0, ka) == 0, "raw", "write of %d behind %d characters damages what was there", n, pre);
  size_t room = LIMIT - 1 - ka, kb = room > size_t(res) ? std::min(b.size(), room - res) : 0;
  string want = b.substr(0, kb), e = "end"; size_t left = LIMIT - 1 - ka - kb; want += e.substr(0, left > 1 ? std::min<size_t>(3, left - 1) : 0);
  MC_CHECK(rest == want, "raw", "write of %d behind %d characters with %d places kept free: %zu characters follow, expected %zu", n, pre, res, rest.size(), want.size());
  one(r, g, false, "raw", "raw");
}
// ---------------------------------------------------------------- names
static const int NLEN[] = { 0, 1, 100, 255, 256, 257, 300, 1023, 1024, 1025, 1026, 2046, 2047, 2048, 2049, 2050, 5000 };
enum { NLENS = sizeof NLEN / sizeof *NLEN };
static void field(const string& got, const string& full, size_t limit, const char* what)
{
  bool ok = full.size() < limit ? got == full : got.size() + 1 >= limit && got.size() <= limit && full.compare(0, got.size(), got) == 0;
  MC_CHECK(ok, what, "%s of %zu characters (limit %zu) arrives with %zu characters: %s", what, full.size(), limit, got.size(), mc::quote(got.substr(0, 40)).c_str());
}
static void names()
{
  lc::Recorder& r = rec(); r.got.clear();
  int which = mc::choose(5, "field"), n = NLEN[mc::choose(NLENS, "length")], then = NLEN[mc::choose(NLENS, "length in the second message")], way = mc::choose(2, "handed over by");
  string v[2][4];
  for (int m = 0; m < 2; ++m) for (int f = 0; f < 4; ++f) v[m][f] = which == f || which == 4 ? body(m ? then : n, f) : mc::format("f%d", f);
  for (int m = 0; m < 2; ++m)
  {
    Exact c(v[m][0]), o(v[m][1]), fn(v[m][2]), fi(v[m][3]), tx("text");
    if (way == 0)
    {
      ThreadStream& t = Alpha::instance().threadStream(eLL_WARNING);
      t.setLineLogLevel(eLL_WARNING); t.setClassname(c.c()); t.setObjectname(o.c()); t.setFunction(fn.c()); t.setFilename(fi.c()); t.setLine(77);
      t << tx.c() << flush;
    }
    else r.push(eLL_WARNING, "Alpha", fi.c(), 77, c.c(), o.c(), fn.c(), tx.c());
    MC_CHECK(r.got.size() == size_t(m + 1), "count", "%zu messages", r.got.size());
    lc::Record& g = r.got[m];
    field(g.cls, v[m][0], cMAX_IDENTIFIER_LENGTH, "class"); field(g.object, v[m][1], cMAX_DESCRIPTION_LENGTH, "object");
    field(g.function, v[m][2], cMAX_IDENTIFIER_LENGTH, "function"); field(g.file, v[m][3], cMAX_DESCRIPTION_LENGTH, "file");
    MC_CHECK(g.line == 77 && g.text == "text" && g.stream == "Alpha" && g.level == eLL_WARNING, "fields", "the other fields are line %zu, text %s, stream %s", g.line, mc::quote(g.text.substr(0, 40)).c_str(), g.stream.substr(0, 40).c_str());
    mc::transition();
  }
}
static void directText()
{
  // texts handed directly to an output
  lc::Recorder& r = rec(); r.got.clear();
  int n = LEN[mc::choose(LENS, "length")], stream = NLEN[mc::choose(NLENS, "length of the stream name")];
  Exact t(body(n)), s(body(stream, 9));
  r.push(eLL_INFO, s.c(), "file", 1, "c", "o", "f", t.c());
  MC_CHECK(r.got.size() == 1, "count", "%zu messages", r.got.size());
  text(r.got[0].text, t.c(), false, "direct", mc::format("%d characters handed to an output", n));
  field(r.got[0].stream, s.c(), cMAX_IDENTIFIER_LENGTH, "stream");
}
// ---------------------------------------------------------------- histories of messages of one thread
static void histories()
{
  lc::Recorder& r = rec();
  LogStream* other = new LogStream("Other", eLL_TRACE); other->addOutputStream(&r); LogStream* first = new LogStream("First", eLL_TRACE); first->addOutputStream(&r);
  r.got.clear();
  struct P { string text; }; P pending[2][2]; const int depth = mc::thorough() ? 4 : 3; int n = 0; string where; vector<lc::Record> expected;
  static const int SZ[] = { 3, 2046, 3000 };
  for (int d = 0; d < depth; ++d)
  {
    int op = mc::choose(25, "statement");
    if (op == 0) break;
    --op;
    int s = op & 1, l = op >> 1 & 1, k = op >> 2;            // stream, level, kind
    LogStream& ls = s ? *other : *first; LogLevel lev = l ? eLL_ERROR : eLL_DEBUG;
    string b = body(SZ[mc::choose(3, "length")], ++n); Exact e(b); string& p = pending[s][l].text; lc::Record x; x.level = lev; x.stream = s ? "Other" : "First"; x.line = 0;
    where += mc::format("%d/%d/%d/%zu ", s, l, k, b.size());
    bool done = true;
    switch (k)
    {
    case 0: SLOGGING_LOG(ls, lev, e.c()); done = false; break;                       // not finished
    case 1: SLOGGING_LOG_CO(ls, lev, Klass, "object", e.c() << flush); x.cls = "Klass"; x.object = "object"; break;
    case 2: SLOGGING_LOG_C(ls, lev, Other, e.c() << endl); x.cls = "Other"; break;
    case 3: SLOGGING_FMT_LOG(ls, lev, "%s", e.c()); break;
    case 4: { ThreadStream& t = ls.threadStream(lev); t.setLineLogLevel(lev); t << e.c() << flush; break; }    // no origin given
    case 5: SLOGGING_LOG(ls, lev, e.c() << flush << "x" << flush); break;
    }
    // the text is cut when it is inserted
    p += b; if (p.size() > LIMIT - 2) p.resize(LIMIT - 2);
    if (done) { x.text = p + (k == 2 ? "\n" : ""); x.function = k == 4 ? "" : __FUNCTION__; expected.push_back(x); p = ""; }
    if (k == 5) { x.text = "x"; x.function = "*"; x.cls = "*"; expected.push_back(x); }
    mc::transition();
  }
  MC_CHECK(r.got.size() == expected.size(), "count", "%s: %zu messages, expected %zu", where.c_str(), r.got.size(), expected.size());
  bool was_pending = false; (void)was_pending;
  for (size_t i = 0; i < expected.size(); ++i)
  {
    lc::Record &g = r.got[i], &x = expected[i];
    MC_CHECK(g.text == x.text && g.level == x.level && g.stream == x.stream, "history", "%s: message %zu is %s, expected %s", where.c_str(), i, g.str().substr(0, 80).c_str(), x.str().substr(0, 80).c_str());
    if (x.cls != "*") MC_CHECK(g.cls == x.cls && g.object == x.object && (x.function.empty() || g.function == x.function), "origin", "%s: message %zu comes from %s(%s) %s, expected %s(%s) %s", where.c_str(), i, g.cls.c_str(), g.object.c_str(), g.function.c_str(), x.cls.c_str(), x.object.c_str(), x.function.c_str());
  }
  delete other; delete first;
}
static void reset()
{
  // what is set for one message does not reappear in the next
  lc::Recorder& r = rec(); r.got.clear();
  int set = mc::choose(32, "set for the first message"), next = mc::choose(32, "set for the second"), level = mc::choose(2, "level"), end = mc::choose(3, "first ended by");
  LogStream& s = Alpha::instance();
  for (int m = 0; m < 2; ++m)
  {
    int k = m ? next : set;
    ThreadStream& t = s.threadStream(m && level ? eLL_ERROR : eLL_INFO); t.setLineLogLevel(m && level ? eLL_ERROR : eLL_INFO);
    const char* v = m ? "second" : "first";
    if (k & 1) t.setClassname(v);
    if (k & 2) t.setObjectname(v);
    if (k & 4) t.setFunction(v);
    if (k & 8) t.setFilename(v);
    if (k & 16) t.setLine(m ? 2 : 1);
    if (m || end == 0) t << v << flush; else if (end == 1) t << v << endl; else t.printf("%s", v);
    lc::Record& g = r.got[m];
    MC_CHECK(g.cls == (k & 1 ? v : "") && g.object == (k & 2 ? v : "") && g.function == (k & 4 ? v : "") && g.file == (k & 8 ? v : "") && g.line == size_t(k & 16 ? (m ? 2 : 1) : 0), "reset",
             "message %d with only the fields %d set comes from class %s, object %s, function %s, file %s, line %zu", m, k, mc::quote(g.cls.substr(0, 20)).c_str(), mc::quote(g.object.substr(0, 20)).c_str(), mc::quote(g.function.substr(0, 20)).c_str(), mc::quote(g.file.substr(0, 20)).c_str(), g.line);
  }
  mc::transition(2);
}
int main(int argc, char** argv)
{
  setenv("TZ", "UTC", 1);
  return mc::run(argc, argv, {
    mc::Scenario("values", values).timeout(60), mc::Scenario("insertions", insertions).timeout(60), mc::Scenario("printf", printed).timeout(60), mc::Scenario("write", raw).timeout(60),
    mc::Scenario("names", names).timeout(60), mc::Scenario("direct", directText).timeout(60), mc::Scenario("histories", histories).timeout(60), mc::Scenario("reset", reset).timeout(60) });
}
