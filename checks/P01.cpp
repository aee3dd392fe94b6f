// P01: the plugin manager hands out exactly the plugins that were loaded.
#include "mc.h"
#include <algorithm>
#include <map>
#include <set>
#include <list>
#include <iostream>
#include <sstream>
#include <boost/filesystem.hpp>
#include <boost/algorithm/string/predicate.hpp>
#include <dlfcn.h>
#include <dirent.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "icl_core_logging/Logging.h"
#define protected public
#include "P01_widget.h"
#undef protected

extern "C" { int verif_live[8 + 8]; }
#define LIVE verif_live

char g_dir[512];
static bool g_deny = false;
// a directory that may not be read
extern "C" DIR* opendir(const char* p)
{
  static DIR* (*real)(const char*) = (DIR* (*)(const char*))dlsym(RTLD_NEXT, "opendir");
  if (g_deny && strstr(p, "locked")) { errno = EACCES; return nullptr; }
  return real(p);
}
extern "C" DIR* fdopendir(int fd)
{
  static DIR* (*real)(int) = (DIR* (*)(int))dlsym(RTLD_NEXT, "fdopendir");
  char l[64], b[512]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, b, sizeof b - 1); b[n > 0 ? n : 0] = 0;
  if (g_deny && strstr(b, "locked")) { errno = EACCES; return nullptr; }
  return real(fd);
}

namespace {

typedef icl_core::plugin::PluginManager<Widget, g_dir> Manager;
typedef std::set<std::string> Names;

std::string libDir()
{
  char b[512]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0;
  std::string s(b); return s.substr(0, s.rfind('/'));
}
void put(const std::string& file, const std::string& text) { int fd = open(file.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (fd < 0 || write(fd, text.data(), text.size()) != ssize_t(text.size())) mc::fail("harness", "cannot write %s", file.c_str()); close(fd); }
void lib(int kind, const std::string& to) { std::string s = libDir() + mc::format("/kind%d.so", kind); if (link(s.c_str(), to.c_str()) != 0) { boost::filesystem::copy_file(s, to); } }

// the contents a directory may have
struct Entry { const char* name; int kind; const char* id; bool loads, instance; };     // kind < 0: no library
enum { E_A, E_B, E_A2, E_OTHER, E_NOID, E_NOBASE, E_NOLOAD, E_NULL, E_TEXT, E_EMPTY, E_DANGLING, E_LOOP, E_LINK, E_SUB, NENTRIES };
const Entry ENTRIES[NENTRIES] = {
  { "one.so", 0, "a", true, true }, { "two.so", 1, "b", true, true }, { "three.so", 2, "a", true, true }, { "other.so", 3, "o", false, false },
  { "noid.so", 4, "", false, false }, { "nobase.so", 5, "p", false, false }, { "noload.so", 6, "n", true, false }, { "null.so", 7, "z", true, false },
  { "text.so", -1, "", false, false }, { "empty", -1, "", false, false }, { "dangling.so", -1, "", false, false }, { "loop.so", -1, "", false, false },
  { "link.so", 1, "b", true, true }, { "sub", 8, "c", true, true } };

struct Expect
{
  Names ids;                            // identifiers that must be available
  Names maybe;                          // loaded libraries that yield no object
  std::map<std::string, std::set<int>> kinds;   // which library may provide an identifier
  std::vector<std::string> failing;     // some error message must mention each
  std::vector<std::string> libs;        // all libraries there are
};

void fill(const std::string& dir, unsigned set, bool recursive, Expect& x)
{
  mkdir(dir.c_str(), 0755);
  for (int e = 0; e < NENTRIES; ++e)
  {
    if (!(set & (1u << e))) continue;
    const Entry& n = ENTRIES[e]; std::string f = dir + "/" + n.name;
    switch (e)
    {
      case E_TEXT: put(f, "not a library\n"); break;
      case E_EMPTY: put(f, ""); break;
      case E_DANGLING: if (symlink("nowhere.so", f.c_str())) mc::fail("harness", "link"); break;
      case E_LOOP: if (symlink(n.name, f.c_str())) mc::fail("harness", "link"); break;
      case E_LINK: { std::string t = dir + "/.." + "/two-target.so"; if (access(t.c_str(), F_OK) != 0) lib(n.kind, t); if (symlink("../two-target.so", f.c_str())) mc::fail("harness", "link"); break; }
      case E_SUB: mkdir(f.c_str(), 0755); f += "/deep.so"; lib(n.kind, f); break;
      default: lib(n.kind, f);
    }
    if (n.kind >= 0) x.libs.push_back(f);
    if (e == E_SUB && !recursive) continue;
    if (n.loads) { (n.instance ? x.ids : x.maybe).insert(n.id); x.kinds[n.id].insert(n.kind); }
    if (e == E_NOID || e == E_NOBASE || e == E_TEXT || e == E_EMPTY) x.failing.push_back(n.name);
    if (e == E_NOLOAD) x.failing.push_back("n");
    if (e == E_NULL) x.failing.push_back("z");
  }
}

bool loaded(const std::string& f) { void* h = dlopen(f.c_str(), RTLD_LAZY | RTLD_NOLOAD); if (h) dlclose(h); dlerror(); return h != nullptr; }
int living() { int n = 0; for (int k = 0; k < 9; ++k) n += LIVE[k]; return n; }
std::string str(const Names& n) { std::string s; for (auto& i : n) s += i + " "; return s; }

// everything the manager says, twice: asking changes nothing
void observe(Manager* m, const Expect& x, const char* when)
{
  for (int again = 0; again < 2; ++again)
  {
    std::list<std::string> av = m->availablePlugins();
    Names got(av.begin(), av.end());
    for (auto& i : x.ids) MC_CHECK(got.count(i), "missing", "%s: plugin %s is not available", when, i.c_str());
    for (auto& i : got) MC_CHECK(x.ids.count(i) || x.maybe.count(i), "unexpected", "%s: plugin %s is available, but no such plugin was loaded", when, i.c_str());
    MC_CHECK(got.size() == av.size(), "twice", "%s: a plugin is available twice", when);
    std::list<Widget*> all = m->plugins();
    MC_CHECK(std::count(all.begin(), all.end(), (Widget*)nullptr) == 0, "null-plugin", "%s: plugins() contains a null pointer", when);
    MC_CHECK(all.size() == x.ids.size(), "count", "%s: %zu plugin objects instead of %zu", when, all.size(), x.ids.size());
    Names names;
    for (Widget* w : all)
    {
      std::string id = w->Identifier();
      MC_CHECK(x.ids.count(id) && names.insert(id).second, "unexpected", "%s: unexpected plugin object %s", when, id.c_str());
      MC_CHECK(x.kinds.at(id).count(w->kind()), "other-plugin", "%s: the object %s comes from another library", when, id.c_str());
      MC_CHECK(m->plugin(id) == w, "other-object", "%s: plugin(%s) is not the object plugins() shows", when, id.c_str());
    }
    for (const char* u : { "nope", "", "A", "o", "x", "p" })
      MC_CHECK(m->plugin(u) == nullptr, "unknown", "%s: asking for the unknown plugin %s yields an object", when, u);
    for (auto& i : x.maybe) MC_CHECK(m->plugin(i) == nullptr, "unknown", "%s: plugin %s without an object yields one", when, i.c_str());
  }
}
void create(Manager* m, const Expect& x)
{
  for (auto& i : x.ids)
  {
    int before = living();
    Widget* w1 = m->createPluginInstance(i); Widget* w2 = m->createPluginInstance(i);
    MC_CHECK(w1 && w2, "create", "no instance of plugin %s", i.c_str());
    MC_CHECK(w1 != w2 && w1 != m->plugin(i) && w2 != m->plugin(i), "create", "an instance of %s is not a new one", i.c_str());
    MC_CHECK(w1->Identifier() == i && w2->Identifier() == i && w1->kind() == m->plugin(i)->kind(), "create", "an instance of %s is another plugin", i.c_str());
    MC_CHECK(living() == before + 2, "create", "%d objects were created for two instances", living() - before);
    delete w1; delete w2;
  }
  int before = living();
  for (const char* u : { "nope", "", "o" }) MC_CHECK(m->createPluginInstance(u) == nullptr, "unknown", "an instance of the unknown plugin %s was created", u);
  for (auto& i : x.maybe) MC_CHECK(m->createPluginInstance(i) == nullptr, "unknown", "an instance of %s was created", i.c_str());
  MC_CHECK(living() == before, "create", "objects were created for unknown plugins");
}
void messages(Manager* m, const Expect& x)
{
  icl_core::plugin::StringList l = m->errorMessages();
  for (auto& f : x.failing)
  {
    bool found = false;
    for (auto& t : l) if (f.size() == 1 ? t.find("plugin " + f) != std::string::npos : t.find("/" + f) != std::string::npos) found = true;
    MC_CHECK(found, "no-message", "no error message about %s", f.c_str());
  }
  if (x.failing.empty()) MC_CHECK(l.empty(), "message", "an error message although everything loaded: %s", l.front().c_str());
  for (auto& t : l) for (const char* ok : { "one.so", "two.so", "three.so", "link.so" })
    MC_CHECK(t.find(std::string("/") + ok) == std::string::npos, "message", "an error message about a valid plugin: %s", t.c_str());
}
void gone(const Expect& x, const char* when)
{
  MC_CHECK(living() == 0, "objects-left", "%s: %d plugin objects are left", when, living());
  for (auto& f : x.libs) MC_CHECK(!loaded(f), "library-left", "%s: the library %s is still loaded", when, f.substr(f.rfind('/') + 1).c_str());
}
void check(Manager* m, const Expect& x, const char* when)
{
  observe(m, x, when);
  create(m, x);
  observe(m, x, "after instances were created");
  messages(m, x);
}

void reset() { memset(LIVE, 0, sizeof LIVE); g_deny = false; }

// ---------------------------------------------------------------- contents of the directory
void contents(bool all)
{
  reset();
  unsigned set = 0;
  for (int e = 0; e < NENTRIES; ++e) if (mc::flip(ENTRIES[e].name)) { set |= 1u << e; mc::trace("%s", ENTRIES[e].name); }
  int mode = all ? mc::choose(4, "initialisation") : 1 + mc::choose(2, "initialisation");
  bool recursive = mode == 1 || mode == 3;
  mc::trace("%s", mode == 0 ? "initialize(eager)" : mode == 1 ? "initialize(lazy, recursive)" : mode == 2 ? "not initialised" : "initialize(eager, recursive)");
  std::string d = mc::scratch() + "/plugins"; snprintf(g_dir, sizeof g_dir, "%s", d.c_str());
  boost::filesystem::remove_all(d); boost::filesystem::remove(mc::scratch() + "/two-target.so");
  Expect x; fill(d, set, recursive, x);
  Manager* m = Manager::instance();
  MC_CHECK(m == Manager::instance(), "instance", "two managers");
  MC_CHECK(!m->isInitialized() && !m->loadLazy(), "initialised", "a new manager is already initialised");
  if (mode == 0) m->initialize(false); else if (mode == 1) m->initialize(true, true); else if (mode == 3) m->initialize(false, true);
  if (mode != 2) MC_CHECK(m->isInitialized() && m->loadLazy() == (mode == 1), "initialised", "the manager is not initialised as wanted");
  check(m, x, "first manager");
  for (auto& f : x.libs)
  {
    // rejected libraries are not kept
    std::string n = f.substr(f.rfind('/') + 1);
    if (n == "other.so" || n == "noid.so" || n == "nobase.so") MC_CHECK(!loaded(f), "rejected-kept", "the rejected library %s stays loaded", n.c_str());
  }
  delete m;
  gone(x, "after the manager's destruction");
  m = Manager::instance();
  MC_CHECK(!m->isInitialized() && !m->loadLazy(), "initialised", "the manager after the destroyed one is already initialised");
  if (recursive) m->initialize(false, true);
  check(m, x, "second manager");
  delete m;
  gone(x, "after the second manager's destruction");
  mc::outcome(str(x.ids));
}

// ---------------------------------------------------------------- search paths
void paths(int n)
{
  reset();
  std::string root = mc::scratch() + "/paths"; boost::filesystem::remove_all(root); mkdir(root.c_str(), 0755);
  static const char* NAMES[] = { "", "first", "second", "missing", "file.so", "locked", "third", "loop" };
  Expect c[8], x; fill(root + "/first", 1u << E_A | 1u << E_OTHER, false, c[1]); fill(root + "/second", 1u << E_A2 | 1u << E_B, false, c[2]);
  lib(1, root + "/file.so"); c[4].libs.push_back(root + "/file.so");
  fill(root + "/locked", 1u << E_B, false, c[5]); c[5].ids.clear(); c[5].kinds.clear();
  fill(root + "/third", 1u << E_SUB | 1u << E_A, true, c[6]); mkdir((root + "/third/sub/locked").c_str(), 0755);
  if (symlink("loop", (root + "/loop").c_str())) mc::fail("harness", "link");
  bool recursive = mc::flip("recursive");
  if (!recursive) { c[6].ids.erase("c"); c[6].kinds.erase("c"); }
  std::vector<std::string> want;
  g_dir[0] = 0; Manager* m = nullptr; g_deny = true;
  for (int i = 0; i < n; ++i)
  {
    int k = mc::choose(8, "path"); mc::trace("path %s", NAMES[k]);
    std::string p = k ? root + "/" + NAMES[k] : "";
    if (i == 0) { snprintf(g_dir, sizeof g_dir, "%s", p.c_str()); m = Manager::instance(); }
    else m->addPluginPath(p);
    if (k) want.push_back(p);
    x.ids.insert(c[k].ids.begin(), c[k].ids.end());
    for (auto& e : c[k].kinds) x.kinds[e.first].insert(e.second.begin(), e.second.end());
  }
  for (auto& e : c) x.libs.insert(x.libs.end(), e.libs.begin(), e.libs.end());
  icl_core::plugin::StringList got = m->pluginPaths();
  MC_CHECK(std::vector<std::string>(got.begin(), got.end()) == want, "paths", "%zu search paths instead of the %zu given ones", got.size(), want.size());
  bool r = m->initialize(mc::flip("lazy"), recursive);
  MC_CHECK(r, "initialised", "initialize() failed");
  observe(m, x, "search paths"); create(m, x);
  delete m;
  gone(x, "after the manager's destruction");
  mc::outcome(str(x.ids));
}

// ---------------------------------------------------------------- the symbols of other libraries
void foreign()
{
  reset();
  std::string d = mc::scratch() + "/plugins"; snprintf(g_dir, sizeof g_dir, "%s", d.c_str());
  boost::filesystem::remove_all(d); boost::filesystem::remove(mc::scratch() + "/two-target.so");
  static const int SOME[] = { E_A, E_NOID, E_NOLOAD, E_TEXT, E_DANGLING };
  unsigned set = 0; for (int e : SOME) if (mc::flip(ENTRIES[e].name)) { set |= 1u << e; mc::trace("%s", ENTRIES[e].name); }
  Expect x; fill(d, set, false, x);
  std::string g = mc::scratch() + "/global.so"; boost::filesystem::remove(g); lib(8, g);
  void* h = dlopen(g.c_str(), RTLD_NOW | RTLD_GLOBAL);     // a library of the program itself exports the plugin functions
  if (!h) mc::fail("harness", "%s", dlerror());
  mc::trace("the program has loaded a library that exports the functions of a plugin");
  Manager* m = Manager::instance(); m->initialize(mc::flip("lazy"));
  check(m, x, "foreign symbols");
  delete m;
  dlclose(h);
  gone(x, "after the manager's destruction");
}

// ---------------------------------------------------------------- histories of operations
struct Static : Widget
{
  std::string id; Static(std::string i) : id(i) { }
  int kind() const { return 100; }
  std::string Identifier() const { return id; }
};
void history(int depth, unsigned set)
{
  reset();
  std::string d = mc::scratch() + "/plugins"; snprintf(g_dir, sizeof g_dir, "%s", d.c_str());
  boost::filesystem::remove_all(d); boost::filesystem::remove(mc::scratch() + "/two-target.so");
  Expect x; fill(d, set, false, x);
  static Static s1("s"), s2("a"), s3("s");
  // reference
  bool inited = false, pending = false; Names handles; Names objects; std::map<std::string, Widget*> seen, stat;
  Manager* m = Manager::instance();
  auto init = [&](bool lazy) { if (!inited) { inited = true; handles = x.ids; handles.insert(x.maybe.begin(), x.maybe.end()); pending = lazy; if (!lazy) objects = x.ids; } else if (pending && !lazy) { pending = false; for (auto& h : handles) if (x.ids.count(h)) objects.insert(h); } };
  auto query = [&] { if (!inited) init(false); if (pending) init(false); };
  static const char* OPS[] = { "initialize(lazy)", "initialize(eager)", "availablePlugins", "plugins", "plugin(a)", "plugin(b)", "plugin(nope)", "create(a)", "create(nope)", "add static s",
                               "add static a", "add another static s", "remove static s", "remove static a", "unload a", "unload nope", "close a", "close nope", "destroy" };
  for (int i = 0; i <= depth; ++i)
  {
    int op = i == depth ? 18 : mc::choose(19, "operation");
    mc::trace("%s", OPS[op]); mc::transition();
    switch (op)
    {
      case 0: case 1: MC_CHECK(m->initialize(op == 0), "initialised", "initialize() failed"); init(op == 0); break;
      case 2:
      {
        std::list<std::string> av = m->availablePlugins(); query();
        Names got(av.begin(), av.end()), want = handles; for (auto& s : stat) want.insert(s.first);
        for (auto& n : x.maybe) { got.erase(n); want.erase(n); }
        MC_CHECK(got == want, "available", "available: %s, expected: %s", str(got).c_str(), str(want).c_str());
        break;
      }
      case 3:
      {
        std::list<Widget*> all = m->plugins(); query();
        std::multiset<std::string> got, want; for (Widget* w : all) { MC_CHECK(w, "null-plugin", "plugins() contains a null pointer"); got.insert(w->Identifier()); }
        want.insert(objects.begin(), objects.end()); for (auto& s : stat) { want.insert(s.first); MC_CHECK(std::count(all.begin(), all.end(), s.second) == 1, "static", "a static plugin is missing"); }
        MC_CHECK(got == want, "objects", "%zu plugin objects instead of %zu", got.size(), want.size());
        break;
      }
      case 4: case 5: case 6:
      {
        std::string id = op == 4 ? "a" : op == 5 ? "b" : "nope";
        Widget* w = m->plugin(id); query();
        if (stat.count(id)) MC_CHECK(w == stat[id], "static", "plugin(%s) is not the static plugin", id.c_str());
        else if (objects.count(id))
        {
          MC_CHECK(w && w->Identifier() == id && w->kind() != 100, "missing", "plugin(%s) is not the loaded plugin", id.c_str());
          MC_CHECK(!seen[id] || seen[id] == w, "other-object", "plugin(%s) is another object than before", id.c_str());
          seen[id] = w;
        }
        else MC_CHECK(!w, "unknown", "plugin(%s) yields an object", id.c_str());
        break;
      }
      case 7: case 8:
      {
        std::string id = op == 7 ? "a" : "nope";
        Widget* w = m->createPluginInstance(id); query();
        if (handles.count(id) && x.ids.count(id)) { MC_CHECK(w && w->Identifier() == id, "create", "no instance of %s", id.c_str()); delete w; }
        else MC_CHECK(!w, "unknown", "an instance of %s was created", id.c_str());
        break;
      }
      case 9: m->addStaticPlugin(&s1); stat["s"] = &s1; break;
      case 10: m->addStaticPlugin(&s2); stat["a"] = &s2; break;
      case 11: m->addStaticPlugin(&s3); stat["s"] = &s3; break;
      case 12: m->removeStaticPlugin("s"); stat.erase("s"); break;
      case 13: m->removeStaticPlugin("a"); stat.erase("a"); break;
      case 14: m->unloadPlugin("a"); objects.erase("a"); seen.erase("a"); break;
      case 15: m->unloadPlugin("nope"); break;
      case 16: m->closePluginHandle("a"); handles.erase("a"); objects.erase("a"); seen.erase("a"); break;
      case 17: m->closePluginHandle("nope"); break;
      case 18: delete m; gone(x, "after the manager's destruction"); m = Manager::instance(); inited = pending = false; handles.clear(); objects.clear(); seen.clear(); stat.clear(); break;
    }
    MC_CHECK(m->isInitialized() == inited && m->loadLazy() == pending, "initialised", "the manager reports initialised %d, lazy %d", m->isInitialized(), m->loadLazy());
    for (const char* s : { "s", "a", "b" }) MC_CHECK(m->isStaticPlugin(s) == (stat.count(s) == 1), "static", "isStaticPlugin(%s) is wrong", s);
    MC_CHECK(living() == int(objects.size()), "objects", "%d plugin objects live instead of %zu", living(), objects.size());
    for (auto& f : x.libs)
    {
      std::string n = f.substr(f.rfind('/') + 1);
      for (auto& e : ENTRIES) if (n == e.name && e.loads && x.kinds[e.id].size() == 1)
        MC_CHECK(loaded(f) == (handles.count(e.id) == 1), "library", "the library %s is %s", n.c_str(), loaded(f) ? "loaded though it was released" : "not loaded");
    }
  }
  delete m;
  gone(x, "at the end");
}

} // namespace

int main(int argc, char** argv)
{
  bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
  return mc::run(argc, argv, {
    mc::Scenario("contents", [th] { contents(th); }).forked(),
    mc::Scenario("paths", [th] { paths(th ? 4 : 3); }).forked(),
    mc::Scenario("foreign", [] { foreign(); }).forked(),
    mc::Scenario("history", [th] { history(th ? 4 : 3, 1u << E_A | 1u << E_B | 1u << E_OTHER); }).forked(),
    mc::Scenario("history-bad", [th] { history(th ? 4 : 3, 1u << E_A | 1u << E_A2 | 1u << E_NULL | 1u << E_NOLOAD); }).forked(),
    mc::Scenario("history-empty", [th] { history(th ? 4 : 3, 0); }).forked(),
  });
}
