// Compatibility names of the configuration library: the same history under the old and under the current names.
#include "deprecated.h"
#include <iostream>
#include <fstream>
#include <sstream>
#include <map>
#include <set>
#include <vector>
#include <memory>
#include <algorithm>
#include <cassert>
#include <cstring>
#include <new>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <boost/regex.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/foreach.hpp>
#include "icl_core/BaseTypes.h"
#include "icl_core/List.h"
#include "icl_core/Map.h"
#include "icl_core/Vector.h"
#include "icl_core/KeyValueDirectory.h"
#include "icl_core_config/AttributeTree.h"
#include "icl_core_config/ConfigIterator.h"
#include "icl_core_config/ConfigParameter.h"
#include "icl_core_config/ConfigPositionalParameter.h"
#define private public                 // the process-wide objects are put back into their first state
#include "icl_core_config/GetoptParser.h"
#include "icl_core_config/ConfigManager.h"
#undef private
#include "icl_core_config/ConfigObserver.h"
#include "icl_core_config/Config.h"
#include "icl_core_config/tAttributeTree.h"
#include "icl_core_config/tConfig.h"
#include "icl_core_config/tConfigIterator.h"
#include "icl_core_config/tConfigObserver.h"
#include "icl_core_config/tConfigParameter.h"
#include "icl_core_config/tConfigValues.h"
#include "icl_core_config/tGetopt.h"
#include "icl_core_config/tGetoptParameter.h"
#include "icl_core_logging/Logging.h"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using namespace icl_core::config;
using std::string; using icl_core::String;

static void fresh()
{
  Getopt& g = Getopt::instance(); ConfigManager& m = ConfigManager::instance(); m.~ConfigManager(); g.~Getopt(); new (&g) Getopt; new (&m) ConfigManager;
}
struct Script                           // choices: made by the first run, repeated by the second one
{
  std::vector<int> made; size_t at; bool repeat; Script() : at(0), repeat(false) { }
  int choose(int n, const char* label) { if (repeat) return at < made.size() ? std::min(made[at++], n - 1) : 0; made.push_back(mc::choose(n, label)); return made.back(); }
  void rewind() { at = 0; repeat = true; }
};
struct Out
{
  std::vector<string> v; template <typename T> Out& operator<<(const T& t) { v.push_back(dep::repr(t)); return *this; } string text() const { string r; for (auto& s : v) r += s + "\n"; return r; }
};
static std::ostringstream g_out, g_err;
struct Capture { std::streambuf *o, *e; Capture() : o(std::cout.rdbuf(g_out.rdbuf())), e(std::cerr.rdbuf(g_err.rdbuf())) { g_out.str(""); g_err.str(""); } ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
static string captured() { string r = g_out.str() + "|" + g_err.str(); g_out.str(""); g_err.str(""); return r; }
static string slurp(const char* f) { std::ifstream i(f); return i ? string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()) : string("<none>"); }
static void spit(const char* f, const string& s) { std::ofstream o(f); o << s; }

namespace icl_core { namespace logging { DECLARE_LOG_STREAM(QuietStream) REGISTER_LOG_STREAM(QuietStream) } }

#define N(current, old) current
namespace current {
#include "D02_body.inc"
}
#undef N
#define N(current, old) old
namespace compat {
#include "D02_body.inc"
}
#undef N
typedef string (*Body)(Script&);
static void both(Body a, Body b, const char* key)
{
  static bool quiet = false; if (!quiet && !mc::tracing()) { quiet = true; if (!freopen("/dev/null", "w", stdout)) { } }      // printf of the tree reader
  static bool there = false; if (!there) { there = true; if (chdir(mc::scratch().c_str())) { } setenv("V", "/env", 1); unsetenv("UNSET_V"); }
  { Capture c; icl_core::logging::QuietStream::instance().setActive(false); }           // its output is written by another thread
  Script in; string x, y;
  for (int run = 0; run < 2; ++run)
  {
    for (auto f : { "saved", "loaded", "incl", "cfg" }) unlink(f);
    fresh(); Capture c; string r = dep::outcome([&] { return (run ? b : a)(in); }); (run ? y : x) = r + captured(); in.rewind();
  }
  if (x != y)
  { // first differing line
    std::istringstream p(x), q(y); string l, k; int n = 0; while (std::getline(p, l), std::getline(q, k), p && q && l == k) ++n;
    size_t d = 0; while (d < k.size() && d < l.size() && k[d] == l[d]) ++d; d = d > 60 ? d - 60 : 0;
    mc::fail(key, "observation %d: the compatibility name yields %.300s, the current name %.300s", n, k.c_str() + d, l.c_str() + d);
  }
  mc::transition(uint64_t(std::count(x.begin(), x.end(), '\n'))); mc::state(mc::hashStr(x));
}
#define BOTH(f) static void f() { both(current::f, compat::f, #f); }
namespace run { BOTH(paths) BOTH(trees) BOTH(lists) BOTH(declared) BOTH(commandLine) BOTH(configuration) BOTH(valueLists) }
static void types()
{
  SAME_TYPE(AttributeTree, tAttributeTree); SAME_TYPE(ConfigManager, tConfig); SAME_TYPE(ConfigIterator, tConfigIterator); SAME_TYPE(ConfigObserver, tConfigObserver); SAME_TYPE(ConfigParameter, tConfigParameter);
  SAME_TYPE(ConfigParameterList, tConfigParameterList); SAME_TYPE(Getopt, tGetopt); SAME_TYPE(GetoptParameter, tGetoptParameter); SAME_TYPE(ConfigValues, tConfigValues);
}
int main(int argc, char** argv)
{
  return mc::run(argc, argv, {
    mc::Scenario("file paths", run::paths), mc::Scenario("attribute trees", run::trees), mc::Scenario("lists of subtrees", run::lists), mc::Scenario("declared parameters", run::declared),
    mc::Scenario("command lines", run::commandLine), mc::Scenario("configuration", run::configuration), mc::Scenario("lists of values", run::valueLists), mc::Scenario("type names", types),
  });
}
