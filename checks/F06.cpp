// F06: typed configuration reads are faithful or report failure.
#include "mc.h"
#include <iostream>
#include <sstream>
#include <map>
#include <vector>
#include <limits>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <cassert>
#include <new>
#include <boost/regex.hpp>
#include <boost/lexical_cast.hpp>
#include "icl_core/BaseTypes.h"
#include "icl_core/List.h"
#include "icl_core/Map.h"
#include "icl_core/Vector.h"
#include "icl_core/KeyValueDirectory.h"
#include "icl_core_config/AttributeTree.h"
#include "icl_core_config/ConfigIterator.h"
#include "icl_core_config/ConfigParameter.h"
#include "icl_core_config/ConfigPositionalParameter.h"
#define private public                 // the process-wide objects are put back into their first state
#include "icl_core_config/GetoptParser.h"
#include "icl_core_config/ConfigManager.h"
#undef private
#include "icl_core_config/Config.h"
namespace cfg = icl_core::config;
using cfg::Getopt; using cfg::ConfigManager;
using std::string; using std::vector; using std::map;

static void fresh()
{
  Getopt& g = Getopt::instance(); ConfigManager& m = ConfigManager::instance();
  m.~ConfigManager(); g.~Getopt();
  new (&g) Getopt; new (&m) ConfigManager;
}
// ---------------------------------------------------------------- what a text denotes
enum Sense { VALUE, NOVALUE, OPEN };    // OPEN: the documentation does not say
static string trimmed(const string& s)
{
  size_t a = s.find_first_not_of(" \t\n"), b = s.find_last_not_of(" \t\n");
  return a == string::npos ? "" : s.substr(a, b - a + 1);
}
template <class T> struct Denote
{
  static Sense of(const string& text, T& v) // integers
  {
    string s = trimmed(text);
    bool neg = false; size_t i = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
    int base = 10;
    if (i + 1 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) { base = 16; i += 2; }
    else if (i < s.size() && s[i] == '0') base = 8;
    if (i == s.size()) return NOVALUE;
    __int128 n = 0;
    for (; i < s.size(); ++i)
    {
      int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : s[i] >= 'a' && s[i] <= 'f' ? s[i] - 'a' + 10 : s[i] >= 'A' && s[i] <= 'F' ? s[i] - 'A' + 10 : 99;
      if (d >= base) return NOVALUE;
      n = n * base + d;
      if (n > (__int128(1) << 70)) return NOVALUE;
    }
    if (neg && !std::numeric_limits<T>::is_signed) return OPEN;   // as in boost::lexical_cast: modulo
    if (neg) n = -n;
    if (n < __int128(std::numeric_limits<T>::min()) || n > __int128(std::numeric_limits<T>::max())) return NOVALUE;
    v = T(n);
    return VALUE;
  }
};
template <class T> static Sense floating(const string& text, T& v)
{
  string s = trimmed(text);
  static const boost::regex num("[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?"), hex("[+-]?0[xX][0-9a-fA-F]+.*");
  if (boost::regex_match(s, hex)) return OPEN;
  if (!boost::regex_match(s, num)) return NOVALUE;
  v = sizeof(T) == 4 ? T(strtof(s.c_str(), nullptr)) : T(strtod(s.c_str(), nullptr));
  return std::isinf(v) ? NOVALUE : VALUE;
}
template <> struct Denote<double> { static Sense of(const string& t, double& v) { return floating(t, v); } };
template <> struct Denote<float> { static Sense of(const string& t, float& v) { return floating(t, v); } };
template <> struct Denote<string> { static Sense of(const string& t, string& v) { v = t; return VALUE; } };
template <> struct Denote<bool>
{
  static Sense of(const string& text, bool& v)
  {
    string s = trimmed(text), l;
    for (char c : s) l += char(tolower(c));
    bool yes = l == "1" || l == "yes" || l == "true", no = l == "0" || l == "no" || l == "false";
    if (!yes && !no) return NOVALUE;
    v = yes;
    return s == text ? VALUE : OPEN;   // surrounded by blanks
  }
};
enum Colour { RED, GREEN, DARK_BLUE, NONE = 77 };
static const char* COLOURS[] = { "red", "green", "dark blue", nullptr };
static const char* COLOURS_M[] = { "red", "green", "dark blue", "END" };
template <> struct Denote<Colour>
{
  static Sense of(const string& t, Colour& v)
  {
    for (int i = 0; i < 3; ++i) if (t == COLOURS[i]) { v = Colour(i); return VALUE; }
    return NOVALUE;
  }
};

template <class T> static T other() { return T(77); }
template <> string other<string>() { return "before"; }
template <> Colour other<Colour>() { return NONE; }
template <class T> static T fallback() { return T(42); }
template <> string fallback<string>() { return "some default"; }
template <> bool fallback<bool>() { return true; }
template <> Colour fallback<Colour>() { return DARK_BLUE; }
template <> bool other<bool>() { return false; }
template <class T> static string text(const T& v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }

static const vector<string> TEXTS = {
  "0", "1", "7", "-1", "+5", "42", "010", "08", "0x10", "0XfF", "0x", "x10", "0xg", "32767", "32768", "65535", "65536", "-32768", "-32769",
  "2147483647", "2147483648", "4294967295", "4294967296", "0xffffffff", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
  "-9223372036854775808", "-9223372036854775809", "0x7fffffffffffffff", "99999999999999999999999", "1.5", "-.25", "1.", ".", "1e3", "1e", "1.5.2", "1e999", "3.4e39",
  "", " ", "12 ", " 12", " 12 ", "12 13", "12abc", "abc", "1,5", "- 5", "--5", "yes", "YES", "no", "No", "true", "TRUE", "false", "True ", "yes no", "0 1", "yess", "tru",
  "word", "two words", " lead", "trail ", "tab\tbed", "line\nbreak", "red", "green", "dark blue", "dark", "Red", "red ", "END", "nan", "inf", "\xc3\xa4", "1\xc3\xa4" };

// ---------------------------------------------------------------- the operations
template <class T> static void judge(const char* op, const string& t, bool present, bool reports, bool ok, const T& got, bool has_default)
{
  T v = other<T>();
  Sense s = present ? Denote<T>::of(t, v) : NOVALUE;
  string what = string(op) + (present ? " of " + mc::quote(t) : " of an absent entry");
  if (s == OPEN) { mc::outcome("open"); return; }
  if (s == VALUE)
  {
    if (reports) MC_CHECK(ok, "F06-refused", "%s fails", what.c_str());
    MC_CHECK(got == v, "F06-value", "%s yields %s, expected %s", what.c_str(), mc::quote(text(got)).c_str(), mc::quote(text(v)).c_str());
  }
  else if (has_default)
  {
    if (reports) MC_CHECK(ok, "F06-default-fails", "%s with a default fails", what.c_str());
    T d = fallback<T>();
    MC_CHECK(got == d, "F06-default", "%s yields %s instead of the default %s", what.c_str(), mc::quote(text(got)).c_str(), mc::quote(text(d)).c_str());
  }
  else
  {
    MC_CHECK(!ok, "F06-invented", "%s succeeds with %s", what.c_str(), mc::quote(text(got)).c_str());
    T o = other<T>();
    MC_CHECK(got == o, "F06-clobbered", "%s fails but changes the target to %s", what.c_str(), mc::quote(text(got)).c_str());
  }
  mc::outcome(string(op) + (s == VALUE ? " value" : " no value"));
}

static void command_line(const string& t, bool present)
{
  Getopt::instance().addParameter(cfg::GetoptParameter("val:", "v", "help"));
  if (!present) return;
  vector<string> store = { "prog", "--val=" + t, t };
  vector<char*> av; for (auto& x : store) av.push_back(&x[0]);
  av.push_back(nullptr);
  int argc = int(store.size());
  Getopt& g = Getopt::instance();
  MC_CHECK(g.initialize(argc, &av[0], Getopt::eCLC_None, Getopt::ePRC_Relaxed) && g.paramNonOptCount() == 1, "F06-command-line", "the command line is refused");
}

struct Item { long pad; int number; string word; bool flag; Colour colour; double real; uint16_t small; Item() : pad(1), number(77), word("before"), flag(false), colour(NONE), real(77), small(77) { } };
template <class T> struct Access;
template <> struct Access<int> { static cfg::impl::MemberValueIface<Item>* make(const string& s) { return MEMBER_VALUE_1(s, Item, number); } static int get(const Item& i) { return i.number; } };
template <> struct Access<string> { static cfg::impl::MemberValueIface<Item>* make(const string& s) { return MEMBER_VALUE_1(s, Item, word); } static string get(const Item& i) { return i.word; } };
template <> struct Access<bool> { static cfg::impl::MemberValueIface<Item>* make(const string& s) { return MEMBER_VALUE_1(s, Item, flag); } static bool get(const Item& i) { return i.flag; } };
template <> struct Access<double> { static cfg::impl::MemberValueIface<Item>* make(const string& s) { return MEMBER_VALUE_1(s, Item, real); } static double get(const Item& i) { return i.real; } };
template <> struct Access<uint16_t> { static cfg::impl::MemberValueIface<Item>* make(const string& s) { return MEMBER_VALUE_1(s, Item, small); } static uint16_t get(const Item& i) { return i.small; } };

template <class T> static void member(const string&, bool) { mc::prune(); }
template <class T> static void memberOf(const string& t, bool present)
{
  Item item;
  cfg::impl::MemberValueIface<Item>* m = Access<T>::make("s");
  bool ok = m->get("/key", item);
  MC_CHECK(m->getSuffix() == "s" && (!present || m->getStringValue() == t), "F06-string-value", "member of %s: %s", mc::quote(t).c_str(), m->getStringValue().c_str());
  delete m;
  judge<T>("member read", t, present, true, ok, Access<T>::get(item), false);
}
template <> void member<int>(const string& t, bool p) { memberOf<int>(t, p); }
template <> void member<string>(const string& t, bool p) { memberOf<string>(t, p); }
template <> void member<bool>(const string& t, bool p) { memberOf<bool>(t, p); }
template <> void member<double>(const string& t, bool p) { memberOf<double>(t, p); }
template <> void member<uint16_t>(const string& t, bool p) { memberOf<uint16_t>(t, p); }

template <class T> static void reads()
{
  fresh();
  int n = mc::choose(int(TEXTS.size()) + 1, "text");
  bool present = n < int(TEXTS.size());
  string t = present ? TEXTS[n] : "";
  if (present) ConfigManager::instance().insert("/key", t);
  command_line(t, present);
  T v = other<T>(); bool ok;
  T def = fallback<T>();
  mc::transition();
  switch (mc::choose(12, "operation"))
  {
    case 0: ok = cfg::get<T>(string("/key"), v); judge<T>("get", t, present, true, ok, v, false); break;
    case 1: ok = cfg::get<T>("/key", v); judge<T>("get (C string)", t, present, true, ok, v, false); break;
    case 2: v = cfg::getDefault<T>(string("/key"), def); judge<T>("getDefault", t, present, false, true, v, true); break;
    case 3: v = cfg::getDefault<T>("/key", def); judge<T>("getDefault (C string)", t, present, false, true, v, true); break;
    case 4: { cfg::ConfigValue<T> c("key", v); ok = c.get("/", icl_core::logging::Nirwana::instance()); judge<T>("ConfigValue", t, present, true, ok, v, false);
              MC_CHECK(c.key() == "key" && (!present || c.stringValue() == t), "F06-string-value", "ConfigValue of %s: %s", mc::quote(t).c_str(), mc::quote(c.stringValue()).c_str()); break; }
    case 5: { cfg::ConfigValueDefault<T> c("/key", v, def); ok = c.get("", icl_core::logging::Nirwana::instance()); judge<T>("ConfigValueDefault", t, present, true, ok, v, true);
              T d; Sense sense = present ? Denote<T>::of(t, d) : NOVALUE; bool val = sense == VALUE;
              if (sense == OPEN) break;
              string want = val ? t : text(def);
              MC_CHECK(c.stringValue() == want, "F06-string-value", "ConfigValueDefault of %s: text %s, expected %s", mc::quote(t).c_str(), mc::quote(c.stringValue()).c_str(), mc::quote(want).c_str()); break; }
    case 6: ok = cfg::paramOpt<T>("val", v); judge<T>("paramOpt", t, present, true, ok, v, false); break;
    case 7: v = cfg::paramOptDefault<T>("val", def); judge<T>("paramOptDefault", t, present, false, true, v, true); break;
    case 8: ok = cfg::paramNonOpt<T>(0, v); judge<T>("paramNonOpt", t, present, true, ok, v, false); break;
    case 9: member<T>(t, present); break;
    case 10: ok = cfg::paramNonOpt<T>(1, v); judge<T>("paramNonOpt", t, false, true, ok, v, false); break;
    case 11: { T* d = new T(def); cfg::ConfigValueDefault<T> c("/key", v, *d); delete d;       // the value passed does not have to outlive the call
               ok = c.get("", icl_core::logging::Nirwana::instance()); judge<T>("ConfigValueDefault", t, present, true, ok, v, true); break; }
  }
}
static void enums()
{
  fresh();
  int n = mc::choose(int(TEXTS.size()) + 1, "text");
  bool present = n < int(TEXTS.size());
  string t = present ? TEXTS[n] : "";
  if (present) ConfigManager::instance().insert("/key", t);
  command_line(t, present);
  Colour v = NONE, def = DARK_BLUE; bool ok;
  bool marker = mc::flip("end-marker");
  const char** d = marker ? COLOURS_M : COLOURS; const char* e = marker ? "END" : nullptr;
  mc::transition();
  typedef Colour T;
  switch (mc::choose(7, "operation"))
  {
    case 0: ok = cfg::get<T>(string("/key"), v, d, e); judge<T>("get enum", t, present, true, ok, v, false); break;
    case 1: ok = cfg::get<T>("/key", v, d, e); judge<T>("get enum (C string)", t, present, true, ok, v, false); break;
    case 2: { cfg::ConfigEnum<T> c("key", v, d, e); ok = c.get("/", icl_core::logging::Nirwana::instance()); judge<T>("ConfigEnum", t, present, true, ok, v, false);
              MC_CHECK(c.key() == "key" && (!present || c.stringValue() == t), "F06-string-value", "ConfigEnum of %s: %s", mc::quote(t).c_str(), c.stringValue().c_str()); break; }
    case 3: { cfg::ConfigEnumDefault<T> c("/key", v, def, d, e); ok = c.get("", icl_core::logging::Nirwana::instance()); judge<T>("ConfigEnumDefault", t, present, true, ok, v, true); break; }
    case 4: ok = cfg::paramOpt<T>("val", v, d, e); judge<T>("paramOpt enum", t, present, true, ok, v, false); break;
    case 6: { T* p = new T(def); cfg::ConfigEnumDefault<T> c("/key", v, *p, d, e); delete p; ok = c.get("", icl_core::logging::Nirwana::instance()); judge<T>("ConfigEnumDefault", t, present, true, ok, v, true); break; }
    case 5: ok = cfg::paramNonOpt<T>(0, v, d, e); judge<T>("paramNonOpt enum", t, present, true, ok, v, false); break;
  }
}
static void memberEnums()
{
  fresh();
  int n = mc::choose(int(TEXTS.size()) + 1, "text");
  bool present = n < int(TEXTS.size());
  string t = present ? TEXTS[n] : "";
  if (present) ConfigManager::instance().insert("/key", t);
  Item item;
  cfg::impl::MemberValueIface<Item>* m;
  if (mc::flip("vector")) m = MEMBER_ENUM_1("s", Item, colour, vector<string>(COLOURS, COLOURS + 3));
  else m = MEMBER_ENUM_1("s", Item, colour, COLOURS);
  bool ok = m->get("/key", item);
  delete m;
  judge<Colour>("member enum read", t, present, true, ok, item.colour, false);
  MC_CHECK(item.pad == 1 && item.number == 77, "F06-clobbered", "member enum read changes another member");
}

// ---------------------------------------------------------------- batch reads
static int g_deleted;
struct Own : cfg::impl::ConfigValueIface
{
  bool ok; int id;
  Own(bool o, int i) : ok(o), id(i) { }
  ~Own() override { ++g_deleted; }
  bool get(string const&, icl_core::logging::LogStream&) const override { return ok; }
  string key() const override { return "own"; }
  string stringValue() const override { return "own"; }
};
static void batch()
{
  fresh();
  ConfigManager& cm = ConfigManager::instance();
  const int n = 1 + mc::choose(mc::thorough() ? 4 : 3, "entries");
  static const char* const PREFIX[] = { "", "/p", "/p/", "/p/q" };
  string prefix = PREFIX[mc::choose(4, "prefix")], full = prefix;
  if (!full.empty() && full.back() != '/') full += "/";
  int num[4] = { 77, 77, 77, 77 }; string word[4] = { "before", "before", "before", "before" }; bool flag[4] = { false, false, false, false }; Colour col[4] = { NONE, NONE, NONE, NONE };
  static const int dnum = 42; static const string dword = "some default"; static const bool dflag = true; static const Colour dcol = DARK_BLUE;
  cfg::ConfigValueList list;
  bool want = true; int own = 0;
  struct Exp { int kind; bool good, def; };
  vector<Exp> exp;
  for (int i = 0; i < n; ++i)
  {
    int kind = mc::choose(5, "kind");
    string k = string("k") + char('0' + i);
    if (kind == 4) { bool ok = mc::flip("own-ok"); list.push_back(new Own(ok, i)); ++own; want = want && ok; exp.push_back({ 4, ok, false }); continue; }
    int state = mc::choose(kind == 1 ? 2 : 3, "state");   // absent, good, malformed
    bool def = mc::flip("default");
    static const char* const GOOD[] = { "0x10", "two words", "yes", "green" };
    static const char* const BAD[] = { "12abc", "", "maybe", "gre" };
    if (state == 1) cm.insert(full + k, GOOD[kind]);
    if (state == 2) cm.insert(full + k, BAD[kind]);
    // entries with the same name under another prefix must not be taken
    cm.insert("/other/" + k, GOOD[kind]);
    switch (kind)
    {
      case 0: list.push_back(def ? CONFIG_VALUE_DEFAULT(k, num[i], dnum) : CONFIG_VALUE(k, num[i])); break;
      case 1: list.push_back(def ? CONFIG_VALUE_DEFAULT(k, word[i], dword) : CONFIG_VALUE(k, word[i])); break;
      case 2: list.push_back(def ? CONFIG_VALUE_DEFAULT(k, flag[i], dflag) : CONFIG_VALUE(k, flag[i])); break;
      case 3: if (def) list.push_back(CONFIG_ENUM_DEFAULT(k, col[i], dcol, COLOURS)); else list.push_back(CONFIG_ENUM(k, col[i], COLOURS)); break;
    }
    exp.push_back({ kind, state == 1, def });
    want = want && (state == 1 || def);
  }
  int mode = mc::choose(prefix.empty() ? 3 : 1, "form");
  bool cleanup = mc::flip("cleanup"), report = mc::flip("report");
  g_deleted = 0;
  icl_core::logging::LogStream& log = icl_core::logging::Nirwana::instance();
  bool ok;
  vector<cfg::impl::ConfigValueIface*> arr(list.begin(), list.end()); arr.push_back(nullptr);
  if (prefix.empty() && mode == 0) ok = cfg::get(&arr[0], log, cleanup, report);
  else if (prefix.empty() && mode == 1) ok = cfg::get(list, log, cleanup, report);
  else ok = cfg::get(prefix, list, log, cleanup, report);
  mc::transition(n);
  MC_CHECK(ok == want, "F06-batch", "batch of %d entries %s", n, ok ? "succeeds although a required entry is missing or malformed" : "fails although every required entry can be read");
  for (int i = 0; i < n; ++i)
  {
    const Exp& e = exp[i];
    int which = e.good ? 0 : e.def ? 1 : 2;
    if (e.kind == 0) { int w[] = { 16, 42, 77 }; MC_CHECK(num[i] == w[which], "F06-batch-value", "entry %d is %d, expected %d", i, num[i], w[which]); }
    if (e.kind == 1) { const char* w[] = { "two words", "some default", "before" }; MC_CHECK(word[i] == w[which], "F06-batch-value", "entry %d is %s, expected %s", i, word[i].c_str(), w[which]); }
    if (e.kind == 2) { bool w[] = { true, true, false }; MC_CHECK(flag[i] == w[which], "F06-batch-value", "entry %d is %d", i, flag[i]); }
    if (e.kind == 3) { Colour w[] = { GREEN, DARK_BLUE, NONE }; MC_CHECK(col[i] == w[which], "F06-batch-value", "entry %d is %d, expected %d", i, col[i], w[which]); }
  }
  MC_CHECK(g_deleted == (cleanup ? own : 0), "F06-batch-cleanup", "%d of %d entries deleted, clean-up %d", g_deleted, own, cleanup);
  if (!cleanup) for (auto* p : list) delete p;
  mc::outcome(ok ? "batch ok" : "batch failed");
}

// ---------------------------------------------------------------- lists of equally structured entries
struct Rec { int n; string w; Colour c; Rec() : n(77), w("before"), c(NONE) { } bool operator==(const Rec& o) const { return n == o.n && w == o.w && c == o.c; } };
static void lists()
{
  fresh();
  ConfigManager& cm = ConfigManager::instance();
  static const char* const PREFIX[] = { "", "/p", "/p/" };
  // list names are texts, not patterns
  static const char* const NAME[] = { "list", "l.st", "sub/list", "l+st", "l(st", "list-1" };
  string prefix = PREFIX[mc::choose(3, "prefix")], name = NAME[mc::choose(6, "name")], full = prefix;
  if (full.empty()) { full = "/" + name; name = full; }
  else { if (full.back() != '/') full += '/'; full += name; }
  static const char* const ELEM[] = { "e1", "e2" };
  map<string, Rec> want; bool error = false, any = false;
  for (int i = 0; i < 2; ++i)
  {
    string k = full + "/" + ELEM[i];
    int n = mc::choose(3, "number"), w = mc::choose(2, "word"), c = mc::choose(3, "colour");
    Rec r;
    if (n) { cm.insert(k + "/n", n == 1 ? "0x10" : "1x"); if (n == 1) r.n = 16; else error = true; }
    if (w) { cm.insert(k + "/sub/w", "two words"); r.w = "two words"; }
    if (c) { cm.insert(k + "/c", c == 1 ? "green" : "gree"); if (c == 1) r.c = GREEN; else error = true; }
    if (n || w || c) { want[ELEM[i]] = r; any = true; }
  }
  switch (mc::choose(6, "others"))      // entries that are not part of the list
  {
    case 0: break;
    case 1: cm.insert(full + "/e3/unknown", "5"); break;
    case 2: cm.insert("/list/e9/n", "5"); if (full == "/list") { Rec r; r.n = 5; want["e9"] = r; any = true; } break;
    case 3: cm.insert("/x" + full + "/e9/n", "5"); cm.insert(full + "x/e9/n", "6"); break;
    case 4: cm.insert("/p/list/e9/n", "5"); if (full == "/p/list") { Rec r; r.n = 5; want["e9"] = r; any = true; } break;
    case 5: cm.insert(full, "5"); cm.insert("n", "5"); break;
  }
  std::list<Rec> out;
  bool ok;
  cfg::ConfigValueList l;
  std::list<cfg::impl::MemberValueIface<Rec>*> members;
  members.push_back(MEMBER_VALUE_1("n", Rec, n)); members.push_back(MEMBER_VALUE_1("sub/w", Rec, w)); members.push_back(MEMBER_ENUM_1("c", Rec, c, COLOURS));
  l.push_back(new cfg::ConfigList<Rec>(name, members, std::back_inserter(out)));
  ok = cfg::get(prefix, l, icl_core::logging::Nirwana::instance());
  for (auto* m : members) delete m;
  mc::transition();
  bool good = any && !error;
  MC_CHECK(ok == good, "F06-list", "list %s %s", full.c_str(), ok ? "succeeds" : "fails");
  vector<Rec> w; if (good) for (auto& e : want) w.push_back(e.second);
  vector<Rec> g(out.begin(), out.end());
  string sg; for (auto& r : g) sg += mc::format(" %d,%s,%d", r.n, r.w.c_str(), r.c);
  string sw; for (auto& r : w) sw += mc::format(" %d,%s,%d", r.n, r.w.c_str(), r.c);
  MC_CHECK(g == w, "F06-list-elements", "list %s read as%s, expected%s", full.c_str(), sg.c_str(), sw.c_str());
  mc::outcome(mc::format("list ok=%d of %zu", ok, g.size()));
}
// list of plain values
static void plainLists()
{
  fresh();
  ConfigManager& cm = ConfigManager::instance();
  int n = mc::choose(4, "elements");
  bool error = false; vector<int> want;
  for (int i = 0; i < n; ++i)
  {
    bool bad = mc::flip("malformed");
    cm.insert(string("/numbers/e") + char('0' + i), bad ? "x" : string("0x") + char('1' + i));
    error = error || bad; want.push_back(i + 1);
  }
  if (mc::flip("nested")) cm.insert("/numbers/e0/more", "9");
  struct Num { int v; Num() : v(77) { } };
  std::list<Num> out;
  std::list<cfg::impl::MemberValueIface<Num>*> members;
  members.push_back(MEMBER_VALUE_1("", Num, v));
  cfg::ConfigList<Num> l("/numbers", members, std::back_inserter(out));
  bool ok = l.get("", icl_core::logging::Nirwana::instance());
  for (auto* m : members) delete m;
  bool good = n > 0 && !error;
  MC_CHECK(ok == good, "F06-list", "list of numbers %s", ok ? "succeeds" : "fails");
  vector<int> got; for (auto& x : out) got.push_back(x.v);
  if (!good) want.clear();
  MC_CHECK(got == want, "F06-list-elements", "list of %zu numbers, expected %zu, or other numbers", got.size(), want.size());
  mc::transition();
}

// entries that are kept and read again: what was read before does not matter
static void again()
{
  fresh();
  ConfigManager& cm = ConfigManager::instance();
  static const struct { const char *key, *value; } SET[] = { { "/a/list/e1/n", "0x10" }, { "/a/list/e1/n", "1x" }, { "/a/list/e2/sub/w", "two words" }, { "/b/list/e1/n", "5" }, { "/b/list/e3/c", "green" },
    { "/b/list/e3/c", "gree" }, { "/a/v", "7" }, { "/b/v", "8" }, { "/b/v", "x" } };
  const int sets = int(sizeof SET / sizeof *SET);
  std::list<Rec> out; int v = 77, d = 77; map<string, string> conf;
  std::list<cfg::impl::MemberValueIface<Rec>*> members;
  members.push_back(MEMBER_VALUE_1("n", Rec, n)); members.push_back(MEMBER_VALUE_1("sub/w", Rec, w)); members.push_back(MEMBER_ENUM_1("c", Rec, c, COLOURS));
  cfg::ConfigList<Rec> l("list", members, std::back_inserter(out)); cfg::ConfigValue<int> val("v", v); cfg::ConfigValueDefault<int> dflt("v", d, 42);
  cfg::ConfigValueList all; all.push_back(&l); all.push_back(&val); all.push_back(&dflt);
  const int steps = mc::thorough() ? 6 : 5;
  for (int step = 0; step < steps; ++step)
  {
    int op = step + 1 < steps ? mc::choose(sets + 2, "operation") : sets + mc::choose(2, "last read");
    if (op < sets) { if (conf.count(SET[op].key)) cm.setValue<string>(SET[op].key, SET[op].value); else cm.insert(SET[op].key, SET[op].value); conf[SET[op].key] = SET[op].value; continue; }
    string p = op == sets ? "/a" : "/b"; map<string, Rec> want; bool error = false; int before = v;
    for (auto& c : conf)
    {
      if (c.first.compare(0, 8, p + "/list/") != 0) continue;
      string e = c.first.substr(8, 2), s = c.first.substr(11); Rec& r = want[e];
      if (s == "n") { if (c.second == "0x10") r.n = 16; else if (c.second == "5") r.n = 5; else error = true; }
      else if (s == "sub/w") r.w = c.second; else if (c.second == "green") r.c = GREEN; else error = true;
    }
    bool lok = !want.empty() && !error; auto i = conf.find(p + "/v"); bool vok = i != conf.end() && i->second != "x"; int number = vok ? i->second[0] - '0' : 0;
    out.clear(); bool ok = cfg::get(p, all, icl_core::logging::Nirwana::instance(), false); mc::transition();
    string sg, sw; for (auto& r : out) sg += mc::format(" %d,%s,%d", r.n, r.w.c_str(), r.c); if (lok) for (auto& r : want) sw += mc::format(" %d,%s,%d", r.second.n, r.second.w.c_str(), r.second.c);
    MC_CHECK(sg == sw, "F06-again", "step %d: the list under %s is read as%s, expected%s", step, p.c_str(), sg.c_str(), sw.c_str());
    MC_CHECK(ok == (lok && vok), "F06-again", "step %d: reading under %s %s", step, p.c_str(), ok ? "succeeds" : "fails");
    MC_CHECK(v == (vok ? number : before) && d == (vok ? number : 42), "F06-again", "step %d: the values under %s are %d and %d", step, p.c_str(), v, d);
    if (lok)
    {
      std::list<Rec> o; cfg::ConfigList<Rec> f("list", members, std::back_inserter(o)); f.get(p + "/", icl_core::logging::Nirwana::instance());
      MC_CHECK(l.stringValue() == f.stringValue(), "F06-again", "step %d: the list under %s is reported as %s instead of %s", step, p.c_str(), l.stringValue().c_str(), f.stringValue().c_str());
    }
    mc::outcome(mc::format("read ok=%d", ok));
  }
  for (auto* m : members) delete m;
}

int main(int argc, char** argv)
{
  return mc::run(argc, argv, {
    mc::Scenario("int16", reads<int16_t>), mc::Scenario("uint16", reads<uint16_t>), mc::Scenario("int32", reads<int32_t>), mc::Scenario("uint32", reads<uint32_t>),
    mc::Scenario("int64", reads<int64_t>), mc::Scenario("uint64", reads<uint64_t>), mc::Scenario("float", reads<float>), mc::Scenario("double", reads<double>),
    mc::Scenario("bool", reads<bool>), mc::Scenario("string", reads<string>), mc::Scenario("enum", enums), mc::Scenario("member-enum", memberEnums),
    mc::Scenario("batch", batch), mc::Scenario("lists", lists), mc::Scenario("plain-lists", plainLists), mc::Scenario("reading again", again) });
}
