// F03: file path decomposition is exact and normalisation preserves meaning.
#include "mc.h"
#include <errno.h>
#include <unistd.h>
#include <sys/stat.h>
#include "icl_core_config/AttributeTree.h"
#include <cstdlib>
#include <unistd.h>
#include <cstdio>
#include <vector>
using icl_core::config::FilePath;
using std::string; using std::vector;

// what a path denotes: where it starts, how far it goes up from there, which names follow, and
// whether it can only be a directory
struct Place
{
  bool absolute = false;
  int up = 0;
  vector<string> names;
  bool operator==(const Place& o) const { return absolute == o.absolute && up == o.up && names == o.names; }
};
static vector<string> components(const string& p)
{
  vector<string> v; string c;
  for (char ch : p) { if (ch == '/' || ch == '\\') { v.push_back(c); c.clear(); } else c += ch; }
  v.push_back(c);
  return v;
}
static Place denote(const string& p)
{
  Place r;
  r.absolute = !p.empty() && (p[0] == '/' || p[0] == '\\');
  for (auto& c : components(p))
  {
    if (c.empty() || c == ".") continue;
    if (c == "..")
    {
      if (!r.names.empty()) r.names.pop_back();
      else if (!r.absolute) ++r.up;
    }
    else r.names.push_back(c);
  }
  return r;
}
static string show(const Place& p)
{
  string s = p.absolute ? "/" : "";
  for (int i = 0; i < p.up; ++i) s += "../";
  for (auto& n : p.names) s += n + "/";
  return s;
}

static const char* const COMP[] = { "", ".", "..", "a", "b.c", ".h", "..d", "e." };
static string path(int maxlen, bool* slash = nullptr)
{
  int n = mc::choose(maxlen + 1, "components");
  string p;
  bool back = false;
  bool absolute = mc::flip("absolute");
  if (absolute) p = "/";
  for (int i = 0; i < n; ++i)
  {
    p += mc::pick(COMP, "component");
    if (i + 1 < n) { p += back ? "\\" : "/"; }
  }
  bool tail = n && mc::flip("trailing separator");
  if (tail) p += "/";
  if (slash) *slash = tail;
  if (n && n <= 3 && mc::flip("other separators")) for (auto& c : p) if (c == '/') c = '\\';
  return p;
}

static void checkNormal(const string& p, const string& n, bool whole)
{
  vector<string> c = components(n);
  MC_CHECK(n.find('\\') == string::npos, "F03-separators", "%s -> %s keeps other separators", p.c_str(), n.c_str());
  for (size_t i = 0; i + 1 < c.size(); ++i)       // the last component may be the file name
  {
    MC_CHECK(c[i] != ".", "F03-removable", "%s -> %s contains a removable '.'", p.c_str(), n.c_str());
    if (c[i] == "..")
    {
      MC_CHECK(!(i == 1 && c[0].empty()), "F03-removable", "%s -> %s goes up from the root", p.c_str(), n.c_str());
      MC_CHECK(i == 0 || c[i - 1] == ".." || c[i - 1].empty(), "F03-removable", "%s -> %s contains a removable 'name/..'", p.c_str(), n.c_str());
    }
  }
  (void)whole;
}

static void normalise()
{
  string p = path(mc::thorough() ? 7 : 6);
  mc::transition();
  string n = FilePath::normalizePath(p);
  Place a = denote(p), b = denote(n);
  MC_CHECK(a == b, "F03-meaning", "%s denotes %s, its normalised form %s denotes %s", p.c_str(), show(a).c_str(), n.c_str(), show(b).c_str());
  checkNormal(p, n, true);
  string nn = FilePath::normalizePath(n);
  MC_CHECK(nn == n, "F03-idempotent", "%s -> %s -> %s", p.c_str(), n.c_str(), nn.c_str());
  MC_CHECK(FilePath::isRelativePath(n) == (n.empty() || n[0] != '/'), "F03-relative", "isRelativePath(%s)", n.c_str());
  // only what is removable is removed: a path without dots or doubled separators stays as it is
  bool plain = true;
  vector<string> c = components(p);
  for (size_t i = 0; i < c.size(); ++i)
    if (c[i] == "." || c[i] == ".." || (c[i].empty() && i && i + 1 < c.size())) plain = false;
  if (plain) MC_CHECK(n == FilePath::exchangeSeparators(p), "F03-plain", "%s was changed to %s", p.c_str(), n.c_str());
}

static void decompose()
{
  // the directory the process is in, and what the environment says about it
  static const char* const HOW[] = { "root", "shell", "no variable", "variable of another directory", "variable of no directory", "symbolic link", "relative variable" };
  int how = mc::choose(7, "current directory");
  static string in; if (in != mc::scratch()) { in = mc::scratch(); mkdir((in + "/u.v").c_str(), 0755); if (symlink("u.v", (in + "/li.nk").c_str()) && errno != EEXIST) mc::fail("environment", "link"); }
  string p = path((mc::thorough() ? 7 : 6) - (how > 1));
  string dir = how == 0 ? "/" : in + "/u.v", link = in + "/li.nk"; if (chdir(dir.c_str())) mc::fail("environment", "chdir");
  switch (how)
  {
    case 2: unsetenv("PWD"); break;
    case 3: setenv("PWD", "/", 1); break;
    case 4: setenv("PWD", "/no/such/directory", 1); break;
    case 5: setenv("PWD", link.c_str(), 1); break;
    case 6: setenv("PWD", ".", 1); break;
    default: setenv("PWD", dir.c_str(), 1);
  }
  mc::transition();
  FilePath f(p.c_str());
  string base = f.currentDir();
  MC_CHECK(denote(base) == denote(dir) || (how == 5 && denote(base) == denote(link)), "F03-current", "the current directory is %s (%s), but currentDir() is %s", dir.c_str(), HOW[how], base.c_str());
  MC_CHECK(!base.empty() && base.back() == '/', "F03-current", "currentDir() is %s, which does not end with a separator", base.c_str());
  Place want = denote(p);
  if (!want.absolute) want = denote(base + "/" + p);
  string all = f.absoluteName();
  MC_CHECK(denote(all) == want, "F03-absolute", "%s in %s denotes %s, but the absolute name is %s", p.c_str(), base.c_str(), show(want).c_str(), all.c_str());
  MC_CHECK(!f.isRelativePath() && all[0] == '/', "F03-absolute", "absolute name %s of %s is not absolute", all.c_str(), p.c_str());
  checkNormal(p, all, false);
  MC_CHECK(f.path() + f.name() == all, "F03-recompose", "%s: '%s' + '%s' is not '%s'", p.c_str(), f.path().c_str(), f.name().c_str(), all.c_str());
  MC_CHECK(f.name().find('/') == string::npos && !f.path().empty() && f.path().back() == '/', "F03-recompose", "%s: path '%s' name '%s'", p.c_str(),
           f.path().c_str(), f.name().c_str());
  size_t dot = f.name().rfind('.');
  string ext = dot == string::npos ? "" : f.name().substr(dot);
  MC_CHECK(f.extension() == ext, "F03-extension", "%s: extension '%s' of '%s'", p.c_str(), f.extension().c_str(), f.name().c_str());
  MC_CHECK(denote(f.absolutePath(FilePath::exchangeSeparators(p))) == want, "F03-absolute", "absolutePath(%s) is %s", p.c_str(), f.absolutePath(p).c_str());
}

static void environment()
{
  static const char* const PART[] = { "${A}", "${B}", "${NONE}", "x", "/", "$", "${", "}", "${}", "${A", "${C}", "${D}", "${G}", "${H}" };
  // C refers to itself, D and E to each other
  static const char* const SET[][2] = { { "A", "val/ue" }, { "B", "${A}" }, { "C", "c${C}" }, { "D", "${E}d" }, { "E", "${A}${D}" }, { "G", "" }, { "H", "${A}${B}${G}${A}" } };
  for (auto& v : SET) setenv(v[0], v[1], 1); unsetenv("NONE"); unsetenv("x");
  int n = mc::choose(mc::thorough() ? 6 : 5, "parts");
  string p;
  for (int i = 0; i < n; ++i) p += mc::pick(PART, "part");
  static bool quiet = false;
  if (!quiet) { quiet = true; if (!freopen("/dev/null", "w", stdout)) abort(); }
  mc::transition();
  string r = FilePath::replaceEnvironment(p);
  // reference: the first reference is replaced until none is left; an unfinished or endless one leaves the text as it was
  string want = p;
  for (int steps = 0; ; ++steps)
  {
    if (steps > 400) { want = p; break; }
    size_t a = want.find("${");
    if (a == string::npos) break;
    size_t b = want.find('}', a + 2);
    if (b == string::npos) { want = p; break; }
    string var = want.substr(a + 2, b - a - 2);
    const char* set = getenv(var.c_str()); string val = set ? set : var;
    want = want.substr(0, a) + val + want.substr(b + 1);
  }
  MC_CHECK(r == want, "F03-environment", "%s -> %s, expected %s", p.c_str(), r.c_str(), want.c_str());
  MC_CHECK(FilePath::getEnvironment("A") == "val/ue" && FilePath::getEnvironment("NONE") == "NONE", "F03-environment", "getEnvironment wrong");
}

int main(int argc, char** argv)
{
  return mc::run(argc, argv, {
    mc::Scenario("normalise", normalise).timeout(10),
    mc::Scenario("decompose", decompose).timeout(10),
    mc::Scenario("environment", environment).timeout(10),
  });
}
