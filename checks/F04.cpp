// F04: command line options are recognised, typed and removed exactly.
#include "mc.h"
#include <iostream>
#include <sstream>
#include <map>
#include <vector>
#include <csetjmp>
#include <cstring>
#include <boost/regex.hpp>
#include "icl_core/BaseTypes.h"
#include "icl_core/List.h"
#include "icl_core/Map.h"
#include "icl_core/Vector.h"
#include "icl_core_config/GetoptParameter.h"
#include "icl_core_config/GetoptPositionalParameter.h"
#define private public                 // a fresh parser per execution instead of the process-wide one
#include "icl_core_config/GetoptParser.h"
#undef private
using namespace icl_core::config;
using std::string; using std::vector; using std::map; using std::pair;

// the process end requested by the parser (help text, missing parameters) is only recorded
static jmp_buf g_exit; static bool g_exit_armed = false;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int code) __attribute__((noreturn));
extern "C" void __wrap_exit(int code)
{
  if (g_exit_armed) { g_exit_armed = false; longjmp(g_exit, 1 + (code & 127)); }
  __real_exit(code);
}

struct Decl { string name; string shortname; bool value; bool prefix; };
struct Setup
{
  vector<Decl> opts;
  vector<pair<string, bool>> pos;      // name, optional; in order of declaration
  string delimiter;                    // empty: no extra parameters
  bool strict = true, cleanup = false, lists = false;
};
enum Result { OK, REFUSED, EXIT };
struct Parsed
{
  Result result = OK;
  map<string, string> opt;
  map<string, vector<pair<string, string>>> prefix;
  vector<string> rest, extra, kept;
};

// what the arguments mean, read off the documentation of the parser
// Where several declared prefixes fit, exactly one of them gets the argument, it is not said which:
// backwards[0/1] tells in which order they are tried for long/short forms.
static Parsed reference(const Setup& s, const vector<string>& args, const bool (&backwards)[2])
{
  Parsed r;
  size_t req = 0, pos = 0;
  vector<string> order;
  for (auto& p : s.pos) if (!p.second) { order.push_back(p.first); ++req; }
  for (auto& p : s.pos) if (p.second) order.push_back(p.first);
  for (size_t i = 0; i < args.size(); ++i)
  {
    const string& a = args[i];
    bool is_long = a.size() > 2 && a[0] == '-' && a[1] == '-' && a[2] != '-';
    bool is_short = !is_long && a.size() > 1 && a[0] == '-' && a[1] != '-';
    if (is_long || is_short)
    {
      string name = a.substr(is_long ? 2 : 1), value;
      bool given = false;
      if (is_long)
      {
        size_t eq = name.find('=', 1);
        if (eq != string::npos) { value = name.substr(eq + 1); name = name.substr(0, eq); given = true; }
      }
      const Decl* d = nullptr; string key;
      for (auto& o : s.opts)
        if (!o.prefix && (is_long ? name == o.name : !o.shortname.empty() && name == o.shortname)) d = &o;
      if (!d)
        for (size_t k = 0; k < s.opts.size(); ++k)
        {
          const Decl& o = s.opts[backwards[is_short] ? s.opts.size() - 1 - k : k];
          const string& n = is_long ? o.name : o.shortname;
          if (o.prefix && !n.empty() && name.compare(0, n.size(), n) == 0) { d = &o; key = name.substr(n.size()); break; }
        }
      if (!d)
      {
        if (s.strict) { r.result = REFUSED; return r; }
        r.rest.push_back(a); r.kept.push_back(a);
        continue;
      }
      if (!d->value) value = "yes";
      else if (is_short)
      {
        if (++i == args.size()) { r.result = REFUSED; return r; }
        value = args[i];
      }
      else if (!given) { r.result = REFUSED; return r; }
      if (d->prefix) r.prefix[d->name].push_back({ key, value });
      else r.opt[d->name] = value;
    }
    else if (!s.delimiter.empty() && a == s.delimiter)
    {
      r.extra.assign(args.begin() + i + 1, args.end());
      break;
    }
    else if (pos < order.size()) r.opt[order[pos++]] = a;
    else { r.rest.push_back(a); r.kept.push_back(a); }
  }
  if (pos < req || r.opt.count("help")) r.result = EXIT;
  return r;
}

static string show(const vector<string>& v)
{
  string s = "[";
  for (auto& x : v) s += (s.size() > 1 ? " " : "") + mc::quote(x);
  return s + "]";
}
static string context(const Setup& s, const vector<string>& args)
{
  string p;
  for (auto& x : s.pos) p += " <" + x.first + (x.second ? "?" : "") + ">";
  return show(args) + (s.strict ? " strict" : " relaxed") + (s.cleanup ? " clean-up" : "")
    + " positionals{" + p + " } delimiter " + mc::quote(s.delimiter);
}

static void declare(Getopt& g, const Setup& s)
{
  GetoptParameterList opts; GetoptPositionalParameterList pos;
  for (auto& o : s.opts)
    if (o.name != "help")               // declared by the parser itself
      opts.push_back(GetoptParameter(o.name + (o.value ? ":" : ""), o.shortname, "help of\n" + o.name, o.prefix));
  for (auto& p : s.pos) pos.push_back(GetoptPositionalParameter(p.first, "meaning of\n" + p.first, p.second));
  if (s.lists) { g.addParameter(opts); g.addParameter(pos); return; }
  for (auto& o : opts) g.addParameter(o);
  for (auto& p : pos) g.addParameter(p);
}

static void parseAndCompare(const Setup& s, const vector<string>& args)
{
  bool overlap = false;
  for (auto& o : s.opts) for (auto& q : s.opts)
    if (&o != &q && o.prefix && q.prefix && (o.name.compare(0, q.name.size(), q.name) == 0
        || (!q.shortname.empty() && o.shortname.compare(0, q.shortname.size(), q.shortname) == 0))) overlap = true;
  vector<Parsed> wanted;
  for (int k = 0; k < (overlap ? 4 : 1); ++k) { const bool b[2] = { (k & 1) != 0, (k & 2) != 0 }; wanted.push_back(reference(s, args, b)); }

  Getopt* g = new Getopt;
  declare(*g, s);
  if (!s.delimiter.empty()) g->activateExtraCmdParams(s.delimiter);

  vector<string> store(args); store.insert(store.begin(), "prog");
  vector<char*> av; for (auto& x : store) av.push_back(&x[0]);
  vector<char*> before(av);
  av.push_back(nullptr);
  int argc = int(store.size());
  std::ostringstream err; std::streambuf* old = std::cerr.rdbuf(err.rdbuf());
  static int code; static bool ok; code = 0; ok = false;
  g_exit_armed = true;
  if ((code = setjmp(g_exit)) == 0)
    ok = g->initialize(argc, &av[0], s.cleanup ? Getopt::eCLC_Cleanup : Getopt::eCLC_None,
                       s.strict ? Getopt::ePRC_Strict : Getopt::ePRC_Relaxed);
  g_exit_armed = false;
  std::cerr.rdbuf(old);
  mc::transition();
  Result got = code ? EXIT : ok ? OK : REFUSED;
  static const char* const NAME[] = { "accepted", "refused", "ended the program" };
  string ctx = context(s, args);
  size_t fit = 0;
  for (size_t k = wanted.size(); k-- > 0;)
  {
    bool same = wanted[k].result == got;
    if (got == OK)
      for (auto& o : s.opts)
      {
        Getopt::KeyValueList l = g->paramPrefixOpt(o.name);
        vector<pair<string, string>> lv; for (auto& kv : l) lv.push_back({ kv.m_key, kv.m_value });
        if (lv != wanted[k].prefix[o.name]) same = false;
        if (lv.empty()) wanted[k].prefix.erase(o.name);
      }
    if (same) fit = k;
  }
  Parsed& want = wanted[fit];
  MC_CHECK(got == want.result, "getopt-result", "%s: %s, expected %s", ctx.c_str(), NAME[got], NAME[want.result]);
  for (size_t i = 0; i < store.size(); ++i)
    MC_CHECK(store[i] == (i ? args[i - 1] : string("prog")), "getopt-argument-text", "%s: argument text changed", ctx.c_str());
  if (got != OK)
  {
    MC_CHECK(!err.str().empty(), "getopt-silent", "%s: nothing was reported", ctx.c_str());
    mc::outcome(NAME[got]);
    delete g;
    return;
  }
  MC_CHECK(g->programName() == "prog", "getopt-program", "%s: program name %s", ctx.c_str(), g->programName().c_str());

  vector<string> names = { "help", "flag", "val", "x", "pos1", "pos2", "opt1", "opt2", "pre", "sw", "a.b", "f", "v", "unknown", "u", "a", "ab", "b" };
  for (auto& n : names)
  {
    bool here = want.opt.count(n) != 0;
    MC_CHECK(g->paramOptPresent(n) == here, "getopt-present", "%s: option %s %s", ctx.c_str(), n.c_str(), here ? "not found" : "found though not given");
    MC_CHECK(g->paramOpt(n) == (here ? want.opt[n] : ""), "getopt-value", "%s: option %s is %s, expected %s", ctx.c_str(), n.c_str(),
             mc::quote(g->paramOpt(n)).c_str(), mc::quote(want.opt[n]).c_str());
    bool ph = want.prefix.count(n) != 0;
    MC_CHECK(g->paramPrefixOptPresent(n) == ph, "getopt-prefix-present", "%s: prefix option %s", ctx.c_str(), n.c_str());
    Getopt::KeyValueList l = g->paramPrefixOpt(n);
    vector<pair<string, string>> lv; for (auto& kv : l) lv.push_back({ kv.m_key, kv.m_value });
    MC_CHECK(lv == (ph ? want.prefix[n] : vector<pair<string, string>>()), "getopt-prefix-values", "%s: prefix option %s has %zu entries, expected %zu, or other texts",
             ctx.c_str(), n.c_str(), lv.size(), want.prefix[n].size());
  }
  vector<string> rest; for (size_t i = 0; i < g->paramNonOptCount(); ++i) rest.push_back(g->paramNonOpt(i));
  MC_CHECK(rest == want.rest, "getopt-rest", "%s: remaining %s, expected %s", ctx.c_str(), show(rest).c_str(), show(want.rest).c_str());
  MC_CHECK(g->paramNonOpt(rest.size()) == "", "getopt-rest-end", "%s: a remaining argument beyond the last", ctx.c_str());
  vector<string> extra; for (size_t i = 0; i < g->extraCmdParamCount(); ++i) extra.push_back(g->extraCmdParam(i));
  MC_CHECK(extra == want.extra, "getopt-extra", "%s: extra %s, expected %s", ctx.c_str(), show(extra).c_str(), show(want.extra).c_str());

  vector<string> left; for (int i = 1; i < argc; ++i) left.push_back(av[i]);
  vector<string> expect = s.cleanup ? want.kept : args;
  MC_CHECK(argc >= 1 && av[0] == before[0], "getopt-argv0", "%s: program name removed", ctx.c_str());
  MC_CHECK(left == expect, s.cleanup ? "getopt-cleanup" : "getopt-untouched", "%s: left %s, expected %s", ctx.c_str(), show(left).c_str(), show(expect).c_str());
  mc::outcome(mc::format("accepted %zu options %zu prefixes %zu rest %zu extra", want.opt.size(), want.prefix.size(), want.rest.size(), want.extra.size()));
  delete g;
}

static const vector<vector<pair<string, bool>>> POS = {
  { }, { { "pos1", false } }, { { "opt1", true } }, { { "pos1", false }, { "opt1", true } },
  { { "opt1", true }, { "pos1", false } }, { { "pos1", false }, { "pos2", false }, { "opt1", true }, { "opt2", true } } };

static Setup choose_setup()
{
  Setup s;
  s.opts = { { "help", "h", false, false }, { "flag", "f", false, false }, { "val", "v", true, false }, { "x", "", false, false },
             { "pre", "p", true, true }, { "sw", "s", false, true }, { "a.b", "q+", true, true } };
  int mode = mc::choose(4, "mode");
  s.strict = mode & 1; s.cleanup = mode & 2; s.lists = mode == 1 || mode == 2;
  s.pos = POS[mc::choose(int(POS.size()), "positionals")];
  static const char* const DELIM[] = { "", "--", "+" };
  s.delimiter = DELIM[mc::choose(3, "delimiter")];
  return s;
}
static void run_words(const vector<string>& words, int len)
{
  Setup s = choose_setup();
  int n = mc::choose(len + 1, "length");
  vector<string> args;
  for (int i = 0; i < n; ++i) args.push_back(words[mc::choose(int(words.size()), "word")]);
  parseAndCompare(s, args);
}

static const vector<string> ALL = {
  "--flag", "-f", "--val=1", "--val=", "--val", "-v", "--val=a=b", "--x", "-x", "--prek=w", "--pre=w", "--prek", "-pk", "-p",
  "--swk", "-sk", "--a.bk=1", "--axbk=1", "-q+k", "-qqk", "--", "+", "-", "word", "", "--unknown", "--unknown=1", "-u",
  "--help", "-h", "---x", "1", "--fla", "-ff" };
static const vector<string> FEW = { "--flag", "-f", "--val=word", "-v", "--prek=word", "-pk", "--", "word", "1", "--unknown", "-" };

static void twoWords() { run_words(ALL, mc::thorough() ? 3 : 2); }
static void fourWords() { run_words(FEW, mc::thorough() ? 5 : 4); }

// every declaration of up to two options whose names overlap, single and repeated arguments
static void declarations()
{
  static const char* const NAMES[] = { "a", "ab", "b", "val" };
  static const char* const SHORTS[] = { "", "a", "b", "ab" };
  Setup s;
  int n = 1 + mc::choose(2, "options");
  for (int i = 0; i < n; ++i)
  {
    Decl d;
    d.name = NAMES[mc::choose(i == 0 ? 2 : 4, "name")];
    d.shortname = SHORTS[mc::choose(4, "short")];
    d.value = mc::flip("value"); d.prefix = mc::flip("prefix");
    s.opts.push_back(d);
  }
  // names declared twice in one form have no defined winner
  if (n == 2)
  {
    if (s.opts[0].prefix == s.opts[1].prefix && (s.opts[0].name == s.opts[1].name
        || (!s.opts[0].shortname.empty() && s.opts[0].shortname == s.opts[1].shortname))) mc::prune();
    if (s.opts[0].name == s.opts[1].name) mc::prune();
  }
  s.opts.insert(s.opts.begin(), { "help", "h", false, false });
  s.strict = mc::flip("strict"); s.cleanup = true;
  static const char* const W[] = { "--a", "--ab", "--b", "--val", "--a=1", "--ab=", "--abc=2", "--val=3", "-a", "-ab", "-b", "-abc", "w" };
  vector<string> args;
  int len = mc::choose(mc::thorough() ? 4 : 3, "length");
  for (int i = 0; i < len; ++i) args.push_back(W[mc::choose(13, "word")]);
  parseAndCompare(s, args);
}

// the help text names the program, what was declared, and nothing twice
static void helpText()
{
  Setup s;
  static const Decl D[] = { { "flag", "f", false, false }, { "val", "v", true, false }, { "only-long", "", false, false }, { "value-long", "", true, false }, { "quick-debug", "qd", true, false } };
  for (auto& d : D) if (mc::flip("declared")) s.opts.push_back(d);
  s.pos = POS[mc::choose(int(POS.size()), "positionals")]; s.lists = mc::flip("as lists");
  bool version = mc::flip("version"), description = mc::flip("description");
  Getopt* g = new Getopt; declare(*g, s);
  char name[] = "prog"; char* av[] = { name, nullptr }; int argc = 1;
  if (s.pos.empty() || s.pos[0].second) { if (s.pos.size() < 2) g->initialize(argc, av, Getopt::eCLC_None, Getopt::ePRC_Relaxed); }
  if (version) g->setProgramVersion("7.25.beta");
  if (description) g->setProgramDescription("Does what it should.");
  MC_CHECK(g->programVersion() == (version ? "7.25.beta" : "") && g->programDescription() == (description ? "Does what it should." : ""), "getopt-about", "version or description are not what was set");
  std::ostringstream err; std::streambuf* old = std::cerr.rdbuf(err.rdbuf());
  g->printHelp();
  std::cerr.rdbuf(old);
  mc::transition();
  string text = err.str();
  auto has = [&](const string& t) { size_t n = 0; for (size_t p = text.find(t); p != string::npos; p = text.find(t, p + 1)) ++n; return n; };
  MC_CHECK(has("7.25.beta") == (version ? 1u : 0u) && has("Does what it should.") == (description ? 1u : 0u), "getopt-help-about", "version or description: %s", text.c_str());
  s.opts.push_back({ "help", "h", false, false });
  // the words of every line that tells an option
  map<string, vector<string>> seen; std::istringstream in(text); string line, usage;
  vector<string> after; string last;
  while (getline(in, line))
  {
    if (line.compare(0, 6, "Usage:") == 0) { usage = line; continue; }
    if (line.find("--") == string::npos) { if (!last.empty() && !line.empty() && line[0] == '\t') seen[last].push_back(line.substr(1)); else last.clear(); continue; }
    size_t b = line.find("--"), e = line.find_first_of("=:", b);
    last = line.substr(b + 2, e - b - 2);
    MC_CHECK(!seen.count(last), "getopt-help-twice", "option %s is listed twice: %s", last.c_str(), text.c_str());
    seen[last].push_back(line);
  }
  size_t n = 0;
  for (auto& o : s.opts)
  {
    MC_CHECK(seen.count(o.name), "getopt-help-missing", "option %s is not listed: %s", o.name.c_str(), text.c_str());
    ++n;
    string shortform = o.shortname.empty() ? "" : "-" + o.shortname + (o.value ? " <value>" : "") + ", ";
    string want = "  " + shortform + "--" + o.name + (o.value ? "=<value>" : "") + ":";
    MC_CHECK(seen[o.name][0] == want, "getopt-help-form", "option %s is listed as '%s' instead of '%s'", o.name.c_str(), seen[o.name][0].c_str(), want.c_str());
    if (o.name != "help") MC_CHECK(seen[o.name].size() == 3 && seen[o.name][1] == "help of" && seen[o.name][2] == o.name, "getopt-help-text", "the text of option %s is not there: %s", o.name.c_str(), text.c_str());
  }
  MC_CHECK(seen.size() == n, "getopt-help-extra", "%zu options are listed instead of %zu: %s", seen.size(), n, text.c_str());
  string u; for (int optional = 0; optional < 2; ++optional) for (auto& p : s.pos) if (p.second == (optional == 1)) { u += optional ? " [<" + p.first + ">]" : " <" + p.first + ">"; MC_CHECK(has("meaning of\n\t" + p.first) == 1, "getopt-help-positional", "the text of parameter %s: %s", p.first.c_str(), text.c_str()); }
  MC_CHECK(usage.size() >= u.size() && usage.compare(usage.size() - u.size(), u.size(), u) == 0 && usage.find('<') == (u.empty() ? string::npos : usage.size() - u.size() + u.find('<')), "getopt-help-usage", "usage line '%s' for parameters '%s'", usage.c_str(), u.c_str());
  delete g;
}

int main(int argc, char** argv)
{
  return mc::run(argc, argv, {
    mc::Scenario("words", twoWords), mc::Scenario("longer vectors", fourWords), mc::Scenario("declarations", declarations), mc::Scenario("help text", helpText) });
}
