// T10: separate objects used by two threads at the same time, in every schedule up to a bound.
#include "threads.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>
#include <icl_core/EnumHelper.h>
#include <icl_core/KeyValueDirectory.h>
#include <icl_core/SchemeParser.h>
#include <icl_core/StringHelper.h>
#include <icl_core/TimeSpan.h>
#include <icl_core/TimeStamp.h>
#include <icl_core/os_fs.h>
#include <icl_core/os_string.h>
#include <icl_core_config/AttributeTree.h>
#include <icl_core_config/Config.h>
using std::string; using icl_core::TimeStamp; using icl_core::config::AttributeTree; using icl_core::config::FilePath;

// The C library's shared buffers: every caller gets the same one, and may be interrupted right after it was written.
static tm g_utc, g_local;
static tm* share(tm& shared, const tm& t, const char* label)
{
  char* to = reinterpret_cast<char*>(&shared); const char* from = reinterpret_cast<const char*>(&t);
  for (size_t i = 0; i < sizeof t; ++i) to[i] = from[i];
  sched::point(label); return &shared;
}
extern "C" tm* gmtime(const time_t* t) noexcept { tm x; if (!gmtime_r(t, &x)) return nullptr; return share(g_utc, x, "gmtime"); }
extern "C" tm* localtime(const time_t* t) noexcept { tm x; if (!localtime_r(t, &x)) return nullptr; return share(g_local, x, "localtime"); }

static string dir() { return mc::scratch() + "/t10"; }
static void put(const string& name, const string& text) { std::ofstream f(name.c_str(), std::ios::binary); f << text; }

// Each operation returns a text; who is 0 or 1 and selects different values and names.
typedef string (*Op)(int who);
static string isoUtc(int who) { TimeStamp t(uint64_t(who ? 951782399 : 1700000000), who ? 5 : 77); return t.formatIso8601BasicUTC() + " " + t.formatIso8601UTC(); }
static string isoLocal(int who) { TimeStamp t(uint64_t(who ? 951782399 : 1700000000), who ? 5 : 77); return t.formatIso8601() + " " + t.formatIso8601Basic(); }
static string parse(int who) { TimeStamp t = TimeStamp::fromIso8601BasicUTC(who ? "20240229T235959,5" : "19991231T010203,000000001"); std::ostringstream o; o << t.tsSec() << "." << t.tsNSec() << " " << icl_core::TimeSpan(who ? 3601 : -7, who ? 5 : -9); return o.str(); }
static string enums(int who)
{
  static const char* const D[] = { "one", "two", "three", nullptr }; int32_t v = -1; bool ok = icl_core::string2Enum(who ? "three" : "two", v, D);
  std::vector<string> w; w.push_back("x"); w.push_back("y"); int64_t l = -1; bool ok2 = icl_core::string2Enum(who ? "y" : "x", l, w);
  return std::to_string(ok) + std::to_string(v) + std::to_string(ok2) + std::to_string(l);
}
static string scheme(int who)
{
  icl_core::SchemeParser p; bool ok = p.parseScheme(who ? "http://host/path#top?a=1&b=2" : "file:///tmp/x?k=v"); std::ostringstream o; o << ok << p.getSchemeResult(); return o.str();
}
static string strings(int who)
{
  std::vector<string> v = icl_core::split(who ? "a,b,,c" : "x;yy", who ? "," : ";"); char b[40]; icl_core::os::snprintf(b, sizeof b, "%d %s", who, "text");
  return icl_core::join(v, "+") + icl_core::trim(who ? "  q " : "r  ") + icl_core::toLower(who ? "ABC" : "Xy") + icl_core::padLeft<string>(who ? "1" : "22", 4, '0') + b
    + icl_core::stringify<int>(who ? 123456 : -7) + icl_core::stringify<double>(who ? 0.5 : 1e100) + icl_core::stringify<bool>(who) + icl_core::padRight<int>(who ? 3 : 44, 4, '_') + icl_core::toUpper(who ? "pq" : "r");
}
static string paths(int who)
{
  FilePath p((who ? "/a/./b/../file.tar.gz" : "/x//y/../../z.txt")); return p.path() + "|" + p.name() + "|" + p.extension() + "|" + FilePath::replaceEnvironment(who ? "${T10A}/${T10B}" : "-${T10B}-${T10A}-");
}
static string tree(int who)
{
  AttributeTree t; t.setAttribute(who ? "a.b" : "a.c", who ? "1" : "2"); t.setAttribute("n", who ? "n1" : "n2"); t.addNewSubTree()->setAttribute("new"); t.addNewSubTree();
  std::ostringstream o; t.printSubTree(o); AttributeTree copy(t); std::istringstream in(o.str()); AttributeTree back; back.get(in); o << copy.contains(); back.printSubTree(o);
  const char* d = t.getAttribute("a.x", "none"); o << d << t.getOrSetDefault("a.y", who ? "d1" : "d2"); return o.str();
}
//! reads the tree of one file, which includes another one
static string load(int who) { (void)who; AttributeTree t; int r = t.load((dir() + "/main.at").c_str()); std::ostringstream o; o << r << " " << t.getAttribute("a", "none") << " " << t.getAttribute("sub.b", "none"); return o.str(); }
static string save(int who) { AttributeTree t; t.setAttribute("k.l", who ? "one" : "two"); string f = dir() + (who ? "/s1.at" : "/s0.at"); int r = t.save(f.c_str()); AttributeTree u; int q = u.load(f.c_str()); return std::to_string(r) + std::to_string(q) + u.getAttribute("k.l", "none"); }
static string config(int who)
{
  int i = 0; bool b = false; string s; double d = 0; bool r = icl_core::config::get<int>("/T10/Int", i) && icl_core::config::get<bool>("/T10/Bool", b) && icl_core::config::get<string>(who ? "/T10/Text" : "/T10/Other", s) && icl_core::config::get<double>("/T10/Double", d);
  bool no = icl_core::config::get<int>("/T10/Text", i); std::ostringstream o; o << r << i << b << s << d << no << icl_core::config::getDefault<int>("/T10/None", who);
  icl_core::config::ConfigIterator it = icl_core::config::find(who ? "/T10/([BD].*)" : "/T10/(.*t)"); while (it.next()) o << " " << it.key() << "=" << it.value() << "(" << it.matchGroup(1) << ")"; return o.str();
}
static string zip(int who)
{
  string f = dir() + (who ? "/z1" : "/z0"), text(who ? 5000 : 9000, who ? 'a' : 'b'), got; { sched::Quiet q; put(f, text); }
  bool r = icl_core::os::zipFile(f.c_str());
  sched::Quiet q; if (gzFile g = gzopen((f + ".gz").c_str(), "rb")) { static char b[20000]; int n = gzread(g, b, sizeof b); if (n > 0) got.assign(b, size_t(n)); gzclose(g); }
  return std::to_string(r) + (got == text ? "same" : "other");
}
static string directory(int who)
{
  icl_core::KeyValueDirectory<string> d; d.insert("k1", who ? "a" : "b"); d.insert("k2", "c"); std::ostringstream o; string v; o << d.get("k1", v) << v << d.hasKey("k3");
  icl_core::KeyValueDirectoryIterator<string> it = d.find(who ? "k(.)" : "(k)1"); while (it.next()) o << it.key() << it.matchGroup(1); return o.str();
}
static const struct { const char* name; Op op; } OPS[] = { { "UTC text", isoUtc }, { "local time text", isoLocal }, { "reading a time", parse }, { "enumerations", enums }, { "schemes", scheme }, { "strings", strings }, { "paths", paths },
  { "attribute tree", tree }, { "loading a tree", load }, { "saving a tree", save }, { "configuration", config }, { "compressing", zip }, { "directory", directory } };
static const int N = int(sizeof OPS / sizeof *OPS);

static void prepare()
{
  sched::Quiet q;
  mkdir(dir().c_str(), 0755); put(dir() + "/main.at", "a:1\nsub{\nINCLUDE:other.at\n}\n"); put(dir() + "/other.at", "b:2\n");
  static const char* const K[][2] = { { "Int", "0x10" }, { "Bool", "yes" }, { "Text", "text" }, { "Other", "other" }, { "Double", "2.5" } };
  for (auto& k : K) icl_core::config::setValue(string("/T10/") + k[0], string(k[1]));
}
static void both(int rounds)
{
  int a = mc::choose(N, "first"), b = mc::choose(N, "second");
  prepare();
  string want[2], got[2];
  { sched::Quiet q; want[0] = OPS[a].op(0); want[1] = OPS[b].op(1); }     // alone
  th::Threads t;
  for (int who = 0; who < 2; ++who)
    t.start([&, who] { for (int r = 0; r < rounds; ++r) { string s = OPS[who ? b : a].op(who); sched::Quiet q; if (r == 0 || s != want[who]) got[who] = s; } });
  t.join();
  for (int who = 0; who < 2; ++who)
    MC_CHECK(got[who] == want[who], "mixed", "%s yields %s while another thread does %s, and %s alone", OPS[who ? b : a].name, mc::quote(got[who]).c_str(), OPS[who ? a : b].name, mc::quote(want[who]).c_str());
  mc::transition(2);
}
int main(int argc, char** argv)
{
  setenv("TZ", "IST-05:30", 1); tzset(); setenv("T10A", "first", 1); setenv("T10B", "second", 1);
  bool deep = false; for (int i = 1; i < argc; ++i) deep |= string(argv[i]) == "--thorough";
  return mc::run(argc, argv, { sched::scenario("pairs", [] { both(1); }, deep ? std::vector<int>{ 0, 1, 2, 3 } : std::vector<int>{ 0, 1, 2 }) });
}
