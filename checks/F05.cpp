// F05: configuration sources are merged with a fixed precedence.
#include "mc.h"
#include <iostream>
#include <fstream>
#include <sstream>
#include <map>
#include <set>
#include <vector>
#include <cassert>
#include <cstring>
#include <new>
#include <sys/stat.h>
#include <unistd.h>
#include <boost/regex.hpp>
#include <boost/lexical_cast.hpp>
#include "icl_core/BaseTypes.h"
#include "icl_core/List.h"
#include "icl_core/Map.h"
#include "icl_core/Vector.h"
#include "icl_core/KeyValueDirectory.h"
#include "icl_core_config/AttributeTree.h"
#include "icl_core_config/ConfigIterator.h"
#include "icl_core_config/ConfigParameter.h"
#include "icl_core_config/ConfigPositionalParameter.h"
#define private public                 // the process-wide objects are put back into their first state
#include "icl_core_config/GetoptParser.h"
#include "icl_core_config/ConfigManager.h"
#undef private
#include "icl_core_config/ConfigObserver.h"
#include "icl_core_config/Config.h"
using namespace icl_core::config;
using std::string; using std::vector; using std::map; using std::pair;

typedef pair<string, string> Entry;
typedef vector<Entry> Entries;

static void fresh()
{
  static bool first = true;
  Getopt& g = Getopt::instance(); ConfigManager& m = ConfigManager::instance();
  if (first) { first = false; }
  m.~ConfigManager(); g.~Getopt();
  new (&g) Getopt; new (&m) ConfigManager;
}
struct Quiet                            // the messages of the library are not part of the property
{
  std::ostringstream err, out; std::streambuf *e, *o;
  Quiet() : e(std::cerr.rdbuf(err.rdbuf())), o(std::cout.rdbuf(out.rdbuf())) { }
  ~Quiet() { std::cerr.rdbuf(e); std::cout.rdbuf(o); }
};
static void noPrintf()                  // the attribute tree reader reports on stdout
{
  static bool done = false;
  if (!done && !mc::tracing()) { done = true; if (!freopen("/dev/null", "w", stdout)) { } }
}

// the attribute tree notes the name of its file in entries of its own
static bool internal(const string& key) { return key.find("_ATTRIBUTE_TREE_") != string::npos; }

// ---------------------------------------------------------------- observers
struct Watch : ConfigObserver
{
  map<string, vector<string>> seen;
  vector<Entry> calls;
  void valueChanged(const string& key) override
  {
    if (internal(key)) return;
    string v;
    bool present = ConfigManager::instance().get(key, v);
    MC_CHECK(present, "F05-notified-absent", "told about %s, which has no value", key.c_str());
    auto& s = seen[key];
    if (s.empty() || s.back() != v) s.push_back(v);
    calls.push_back({ key, v });
  }
};
static map<string, vector<string>> history(const Entries& assigned, const string& only)
{
  map<string, vector<string>> h;
  for (auto& a : assigned)
    if (only.empty() || a.first == only)
    {
      auto& s = h[a.first];
      if (s.empty() || s.back() != a.second) s.push_back(a.second);
    }
  return h;
}
static string show(const map<string, vector<string>>& h)
{
  string s = "{";
  for (auto& x : h) { s += " " + x.first + ":"; for (auto& v : x.second) s += v + ","; }
  return s + " }";
}
static string show(const map<string, string>& h)
{
  string s = "{";
  for (auto& x : h) s += " " + x.first + "=" + mc::quote(x.second);
  return s + " }";
}

// ---------------------------------------------------------------- files
static void put(const string& name, const string& text) { std::ofstream f(name.c_str(), std::ios::binary); f << text; }
static const char* const KEYS[] = { "/a", "/b", "/s/a" };

static string entryText(const Entry& e, bool xml, int style)
{
  string k = e.first.substr(1), group;
  size_t slash = k.find('/');
  if (slash != string::npos) { group = k.substr(0, slash); k = k.substr(slash + 1); }
  string s;
  if (xml)
  {
    string v = style == 1 ? "\n  " + e.second + "\n" : style == 2 ? "<!-- c -->" + e.second : e.second;
    s = "<" + k + ">" + v + "</" + k + ">";
    if (!group.empty()) s = "<" + group + ">" + s + "</" + group + ">";
    return s + "\n";
  }
  if (group.empty()) return k + ":" + e.second + "\n";
  if (style == 1) return group + "." + k + ":" + e.second + "\n";
  return group + "{\n  " + k + ":" + e.second + "\n}\n";
}
static string includeText(const string& name, bool xml)
{
  return xml ? "<INCLUDE>" + name + "</INCLUDE>\n" : "_INCLUDE_:" + name + "\n";
}
static string fileText(const string& body, bool xml) { return xml ? "<?xml version=\"1.0\"?>\n<Root>\n" + body + "</Root>\n" : body; }

static map<string, string> actual()
{
  map<string, string> m;
  ConfigIterator it = find(".*");
  while (it.next()) if (!internal(it.key())) m[it.key()] = it.value();
  return m;
}

// ---------------------------------------------------------------- start-up
static void startup(int maxlen, bool with_include)
{
  noPrintf(); fresh();
  Quiet quiet;
  const string d = mc::scratch();
  ConfigManager& cm = ConfigManager::instance();

  // configuration file
  enum Kind { NONE, MISSING, BROKEN, XML, TREE };
  Kind kind = Kind(mc::choose(5, "file"));
  Entries assigned;                     // what the sources say, in the order of their precedence
  vector<string> args;
  string file;
  if (kind == MISSING) file = d + "/missing.xml";
  if (kind == BROKEN) { file = d + "/broken.xml"; put(file, "<Root><a>1</a>"); }
  if (kind == XML || kind == TREE)
  {
    bool xml = kind == XML;
    int n = mc::choose(maxlen + 1, "entries");
    int style = with_include ? 0 : mc::choose(xml ? 3 : 2, "style");
    Entries mine;
    for (int i = 0; i < n; ++i) mine.push_back({ KEYS[mc::choose(3, "key")], string(1, char('1' + i)) });
    int where = -1, which = 0;
    Entry inner("", "inner");
    if (with_include)
    {
      where = mc::choose(n + 1, "include-at");
      which = mc::choose(4, "included");      // entry of one of the keys, or a missing file
      if (which < 3) inner.first = KEYS[which];
      // a tree may be included into an XML file, and the other file may lie in a subdirectory
      bool itree = !xml || mc::flip("included-tree");
      bool sub = mc::flip("subdirectory");
      string iname = string(sub ? "sub/" : "") + (itree ? "inc.tree" : "inc.xml");
      mkdir((d + "/sub").c_str(), 0700);
      if (which < 3) put(d + "/" + iname, fileText(entryText(inner, !itree, 0), !itree));
      else { unlink((d + "/" + iname).c_str()); }
      inner.second = "inner";
      string body;
      for (int i = 0; i <= n; ++i)
      {
        if (i == where) { body += includeText(iname, xml); if (which < 3) assigned.push_back(inner); }
        if (i < n) { body += entryText(mine[i], xml, 0); assigned.push_back(mine[i]); }
      }
      file = d + (xml ? "/main.xml" : "/main.tree");
      put(file, fileText(body, xml));
    }
    else
    {
      string body;
      for (auto& e : mine) body += entryText(e, xml, style);
      assigned = mine;
      file = d + (xml ? "/main.xml" : "/main.tree");
      put(file, fileText(body, xml));
    }
    if (!xml)
    {
      // the tree is read completely, later entries replacing earlier ones, before it is merged
      map<string, string> last;
      for (auto& e : assigned) last[e.first] = e.second;
      assigned.assign(last.begin(), last.end());
    }
  }
  if (kind != NONE) { if (mc::flip("short")) { args.push_back("-c"); args.push_back(file); } else args.push_back("--configfile=" + file); }
  bool loads = kind == NONE || kind == XML || kind == TREE;
  if (!file.empty() && loads) assigned.push_back({ "/configfile", file });

  // a declared parameter for a key of the file
  map<string, string> defaults;
  int pa = mc::choose(7, "parameter");
  static const char* const PKEY[] = { "/a", "/s/a" };
  string pkey = pa ? PKEY[mc::choose(2, "parameter-key")] : "";
  if (pa)
  {
    bool def = pa > 3;
    cm.addParameter(ConfigParameter("aa:", "A", pkey, "help", def ? "default" : ""));
    if (def) defaults[pkey] = "default";
    int how = (pa - 1) % 3;
    if (how == 1) args.push_back("--aa=param");
    if (how == 2) { args.push_back("-A"); args.push_back("param"); }
    if (how) assigned.push_back({ pkey, "param" });
  }
  // a positional parameter
  int pp = mc::choose(5, "positional");
  if (pp)
  {
    bool def = pp > 2, given = pp % 2 == 0;
    cm.addParameter(ConfigPositionalParameter("bb", "/b", "help", true, def ? "pdefault" : ""));
    if (def) defaults["/b"] = "pdefault";
    if (given) { args.push_back("posval"); assigned.push_back({ "/b", "posval" }); }
  }
  // defaults count only where no source has given the key (command line overrides come on top of them)
  map<string, string> now;
  for (auto& e : assigned) now[e.first] = e.second;
  for (auto& e : defaults) if (!now.count(e.first)) assigned.push_back(e);
  // generic overrides
  Entries over;
  switch (mc::choose(with_include && !mc::thorough() ? 3 : 6, "override"))
  {
    case 0: break;
    case 1: over = { { "/a", "over" } }; break;
    case 2: over = { { "/s/a", "over" } }; break;
    case 3: over = { { "/a", "over1" }, { "/a", "over2" } }; break;
    case 4: over = { { "/x", "over" } }; break;
    case 5: over = { { "/b", "over" }, { "/s/a", "over2" } }; break;
  }
  bool first = mc::flip("override-first");
  vector<string> oargs;
  for (size_t i = 0; i < over.size(); ++i)
  {
    if (i % 2 == 0) oargs.push_back("--config-option" + over[i].first + "=" + over[i].second);
    else { oargs.push_back("-o" + over[i].first); oargs.push_back(over[i].second); }
    assigned.push_back(over[i]);
  }
  if (first) args.insert(args.begin(), oargs.begin(), oargs.end()); else args.insert(args.end(), oargs.begin(), oargs.end());

  Watch* all = new Watch; Watch* one = new Watch; Watch* gone = new Watch;
  string watched = KEYS[with_include && !mc::thorough() ? 2 : mc::choose(3, "watched")];
  cm.registerObserver(all); cm.registerObserver(one, watched);
  cm.registerObserver(gone); cm.registerObserver(gone, watched); cm.unregisterObserver(gone);

  vector<string> store(args); store.insert(store.begin(), "prog");
  vector<char*> av; for (auto& x : store) av.push_back(&x[0]);
  av.push_back(nullptr);
  int argc = int(store.size());
  bool ok = initialize(argc, &av[0], Getopt::eCLC_None, Getopt::ePRC_Strict);
  mc::transition();
  string ctx = "arguments";
  for (auto& a : args) ctx += " " + mc::quote(a);
  MC_CHECK(ok == loads, "F05-result", "%s: initialisation %s", ctx.c_str(), ok ? "succeeds although the file could not be read" : "fails");
  if (ok)
  {
    MC_CHECK(cm.isInitialized(), "F05-result", "%s: not marked initialised", ctx.c_str());
    map<string, string> want;
    for (auto& e : assigned) want[e.first] = e.second;
    map<string, string> got = actual();
    MC_CHECK(got == want, "F05-merge", "%s: %s, expected %s", ctx.c_str(), show(got).c_str(), show(want).c_str());
    for (const char* k : { "/a", "/b", "/s/a", "/x", "/s", "", "a", "/configfile" })
    {
      string v = "kept";
      bool has = cm.get(k, v), typed; string tv = "kept";
      typed = icl_core::config::get<string>(k, tv);
      auto it = want.find(k);
      MC_CHECK(has == (it != want.end()) && typed == has && cm.hasKey(k) == has, "F05-absence", "%s: key %s", ctx.c_str(), k);
      MC_CHECK(v == (has ? it->second : "kept") && tv == v, "F05-lookup", "%s: key %s is %s", ctx.c_str(), k, v.c_str());
    }
    auto hall = history(assigned, ""), hone = history(assigned, watched);
    MC_CHECK(all->seen == hall, "F05-observer-all", "%s: told %s, expected %s", ctx.c_str(), show(all->seen).c_str(), show(hall).c_str());
    MC_CHECK(one->seen == hone, "F05-observer-key", "%s: observer of %s told %s, expected %s", ctx.c_str(), watched.c_str(), show(one->seen).c_str(), show(hone).c_str());
    MC_CHECK(gone->calls.empty(), "F05-observer-gone", "%s: an unregistered observer was told", ctx.c_str());
    // observers that come later hear about what is there already
    Watch late, lateone;
    cm.registerObserver(&late); cm.registerObserver(&lateone, watched);
    map<string, vector<string>> cur, curone;
    for (auto& e : want) { cur[e.first] = { e.second }; if (e.first == watched) curone[e.first] = { e.second }; }
    MC_CHECK(late.seen == cur, "F05-observer-late", "%s: late observer told %s", ctx.c_str(), show(late.seen).c_str());
    MC_CHECK(lateone.seen == curone, "F05-observer-late", "%s: late observer of %s told %s", ctx.c_str(), watched.c_str(), show(lateone.seen).c_str());
    mc::outcome(show(want).substr(0, 60));
  }
  else mc::outcome("failed");
  delete all; delete one; delete gone;
}
static void sources() { startup(mc::thorough() ? 3 : 2, false); }
static void includes() { startup(mc::thorough() ? 2 : 1, true); }

// ---------------------------------------------------------------- includes that form a cycle, deep chains
static void cycles()
{
  noPrintf(); fresh();
  Quiet quiet;
  const string d = mc::scratch() + "/cyc";
  mkdir(d.c_str(), 0700); mkdir((d + "/sub").c_str(), 0700);
  // three files; each includes up to two others (or itself), in any form
  static const char* const NAME[] = { "main.xml", "sub/one.xml", "two.xml" };
  static const char* const FROM_TOP[] = { "main.xml", "sub/one.xml", "./two.xml" };
  static const char* const FROM_SUB[] = { "../main.xml", "one.xml", "../sub/../two.xml" };
  vector<vector<int>> inc(3);
  for (int i = 0; i < 3; ++i)
  {
    int n = mc::choose(3, "includes");
    for (int j = 0; j < n; ++j) inc[i].push_back(mc::choose(3, "which"));
    string body;
    string k = string("k") + char('0' + i);
    body = "<" + k + ">" + "v</" + k + ">\n";
    for (int t : inc[i]) body += includeText(i == 1 ? FROM_SUB[t] : FROM_TOP[t], true);
    body += "<l" + string(1, char('0' + i)) + ">v</l" + string(1, char('0' + i)) + ">\n<last>" + char('0' + i) + "</last>\n";
    put(d + "/" + NAME[i], fileText(body, true));
  }
  std::set<int> reach; vector<int> todo(1, 0);
  while (!todo.empty()) { int x = todo.back(); todo.pop_back(); if (reach.insert(x).second) for (int t : inc[x]) todo.push_back(t); }
  string file = d + "/main.xml";
  ConfigManager& cm = ConfigManager::instance();
  cm.setValue<string>("/configfile", file);
  mc::transition();
  map<string, string> got = actual(), want;
  for (int x : reach) { want[string("/k") + char('0' + x)] = "v"; want[string("/l") + char('0' + x)] = "v"; }
  want["/last"] = "0"; want["/configfile"] = file;
  MC_CHECK(got == want, "F05-include-cycle", "files %zu: %s, expected %s", reach.size(), show(got).c_str(), show(want).c_str());
  // the same file can be read again afterwards
  fresh();
  ConfigManager::instance().setValue<string>("/configfile", file);
  MC_CHECK(actual() == want, "F05-include-again", "second reading differs: %s", show(actual()).c_str());
}

// ---------------------------------------------------------------- XML texts
static void xmlTexts()
{
  noPrintf(); fresh();
  Quiet quiet;
  const string d = mc::scratch();
  struct T { const char* text; const char* value; };
  static const T TEXT[] = { { "1", "1" }, { "  two words ", "two words" }, { "a&lt;b&amp;c&gt;&quot;&apos;", "a<b&c>\"'" }, { "<![CDATA[x < y]]>", "x < y" },
    { "\n\t v \n", "v" }, { "<!-- none -->", nullptr }, { "", nullptr }, { "   ", nullptr }, { "&#65;", "A" }, { "\xc3\xa4", "\xc3\xa4" }, { "0x10", "0x10" }, { "/a/b", "/a/b" } };
  int depth = mc::choose(4, "depth");
  const T& t = TEXT[mc::choose(int(sizeof(TEXT) / sizeof(T)), "text")];
  bool attr = mc::flip("attributes"), selfclosed = mc::flip("empty-element"), root = mc::flip("root-name");
  string open, close, key;
  for (int i = 0; i < depth; ++i) { string n = i == 0 ? "INCLUDES" : i == 1 ? "n-1" : "n_2.x"; open += "<" + n + ">"; close = "</" + n + ">" + close; key += "/" + n; }
  key += "/leaf";
  string s = string(root ? "<leaf>" : "<Configuration version=\"1\">") + "<!-- comment --><?pi x?>" + open + (selfclosed ? "<empty/><empty2></empty2>" : "") + "<leaf" + (attr ? " x=\"9\"" : "") + ">" + t.text + "</leaf>"
    + close + "<after>z</after>" + (root ? "</leaf>" : "</Configuration>");
  put(d + "/t.xml", s);
  ConfigManager::instance().setValue<string>("/configfile", d + "/t.xml");
  mc::transition();
  map<string, string> want; want["/after"] = "z"; want["/configfile"] = d + "/t.xml";
  if (t.value) want[key] = t.value;
  map<string, string> got = actual();
  MC_CHECK(got == want, "F05-xml", "%s read as %s, expected %s", mc::quote(s).c_str(), show(got).c_str(), show(want).c_str());
}

// ---------------------------------------------------------------- changes at run time
static void changes()
{
  noPrintf(); fresh();
  Quiet quiet;
  const string d = mc::scratch();
  ConfigManager& cm = ConfigManager::instance();
  static const char* const K[] = { "/a", "/a.", "/b", "/(" };     // keys are texts, not patterns
  static const char* const V[] = { "1", "2" };
  map<string, string> model;
  struct Obs { Watch* w; std::multiset<string> keys; };
  vector<Obs> obs(2);
  for (auto& o : obs) o.w = new Watch;
  const int steps = mc::thorough() ? 5 : 4;
  for (int step = 0; step < steps; ++step)
  {
    for (auto& o : obs) if (o.w) o.w->calls.clear();
    std::map<int, map<string, int>> expect; // observer -> key -> calls
    string desc;
    auto told = [&](const string& key) {
      for (size_t i = 0; i < obs.size(); ++i) { size_t n = obs[i].w ? obs[i].keys.count(key) + obs[i].keys.count("") : 0; if (n) expect[int(i)][key] += int(n); } };
    bool order = false;
    switch (mc::choose(5, "op"))
    {
      case 0: case 1: {
        const char* k = K[mc::choose(4, "key")]; const char* v = V[mc::choose(2, "value")];
        desc = string("set ") + k + "=" + v;
        bool inserted = cm.setValue<string>(k, v);
        MC_CHECK(inserted == !model.count(k), "F05-insert", "%s reports %s", desc.c_str(), inserted ? "a new key" : "a known key");
        model[k] = v; told(k);
        break; }
      case 2: {
        size_t i = mc::choose(2, "observer"); string k = mc::flip("all") ? "" : K[mc::choose(4, "key")];
        if (!obs[i].w) mc::prune();
        desc = "register " + k;
        cm.registerObserver(obs[i].w, k);
        obs[i].keys.insert(k);
        if (k.empty()) for (auto& e : model) expect[int(i)][e.first] += 1;
        else if (model.count(k)) expect[int(i)][k] += 1;
        break; }
      case 3: {
        size_t i = mc::choose(2, "observer");
        if (!obs[i].w) mc::prune();
        desc = "unregister";
        if (mc::flip("destroy")) { delete obs[i].w; obs[i].w = nullptr; }
        else cm.unregisterObserver(obs[i].w);
        obs[i].keys.clear();
        break; }
      case 4: {
        desc = "load";
        put(d + "/r.xml", "<R><a>7</a><b>8</b></R>");
        cm.setValue<string>("/configfile", d + "/r.xml");
        for (const char* k : { "/a", "/b", "/configfile" }) told(k);
        model["/a"] = "7"; model["/b"] = "8"; model["/configfile"] = d + "/r.xml";
        break; }
    }
    (void)order;
    mc::transition();
    map<string, string> got = actual();
    MC_CHECK(got == model, "F05-change", "after %s: %s, expected %s", desc.c_str(), show(got).c_str(), show(model).c_str());
    for (size_t i = 0; i < obs.size(); ++i)
    {
      if (!obs[i].w) continue;
      map<string, int> calls; for (auto& c : obs[i].w->calls) { ++calls[c.first]; MC_CHECK(model[c.first] == c.second, "F05-observer-value", "after %s: observer sees an older value", desc.c_str()); }
      // at least one call per change and registration decides; nothing unrelated may be reported
      for (auto& e : expect[int(i)]) MC_CHECK(calls.count(e.first), "F05-observer-missed", "after %s: observer %zu not told about %s", desc.c_str(), i, e.first.c_str());
      for (auto& c : calls) MC_CHECK(expect[int(i)].count(c.first), "F05-observer-stray", "after %s: observer %zu told about %s", desc.c_str(), i, c.first.c_str());
    }
    uint64_t h = 7; for (auto& e : model) h = mc::mix(h, mc::hashStr(e.first + "=" + e.second));
    for (auto& o : obs) { h = mc::mix(h, o.w != nullptr); for (auto& k : o.keys) h = mc::mix(h, mc::hashStr(k)); }
    mc::state(h);
  }
  for (auto& o : obs) delete o.w;
}

// ---------------------------------------------------------------- queries
static void queries()
{
  fresh();
  ConfigManager& cm = ConfigManager::instance();
  static const char* const K[] = { "/a", "/ab", "/a/b", "/a/c/b", "" };
  static const char* const Q[] = { ".*", "/a", "/a.*", "/a/(.*)", "/(.+?)(/(.+))?", "nothing", "/a/([^/]*)/?b?", "" };
  map<string, string> model;
  int set = mc::choose(32, "keys");
  for (int i = 0; i < 5; ++i) if (set >> i & 1) { model[K[i]] = string("v") + char('0' + i); cm.insert(K[i], model[K[i]]); }
  const char* q = Q[mc::choose(8, "query")];
  vector<vector<string>> want, got, again;
  for (auto& e : model)
  {
    boost::smatch m;
    if (boost::regex_match(e.first, m, boost::regex(q))) want.push_back({ e.first, e.second, m[0], m.size() > 1 ? m[1].str() : "", m.size() > 2 ? m[2].str() : "", m.size() > 3 ? m[3].str() : "", "" });
  }
  ConfigIterator it = find(q);
  for (int pass = 0; pass < 2; ++pass)
  {
    auto& o = pass ? again : got;
    while (it.next()) o.push_back({ it.key(), it.value(), it.matchGroup(0), it.matchGroup(1), it.matchGroup(2), it.matchGroup(3), it.matchGroup(9) });
    it.reset();
  }
  mc::transition();
  MC_CHECK(got == want && again == want, "F05-query", "query %s on %zu keys: %zu results (%zu after reset), expected %zu, or other contents", q, model.size(), got.size(), again.size(), want.size());
}

int main(int argc, char** argv)
{
  return mc::run(argc, argv, {
    mc::Scenario("sources", sources), mc::Scenario("includes", includes),
    mc::Scenario("include-graph", cycles).timeout(20),
    mc::Scenario("xml-texts", xmlTexts), mc::Scenario("changes", changes), mc::Scenario("queries", queries) });
}
