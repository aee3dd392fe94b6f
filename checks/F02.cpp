// F02: attribute trees survive writing and reading back; the parser always ends.
#include "mc.h"
#include "icl_core_config/AttributeTree.h"
#include <cstring>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <cerrno>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <sys/stat.h>
using icl_core::config::AttributeTree;
using std::string; using std::map; using std::vector;
typedef map<string, string> Values;

// ---------------------------------------------------------------- faults of the file system
static int g_left = -1; static bool g_failed;
static bool failing(int fd) { if (g_left < 0 || fd < 3) return false; if (g_left-- > 0) return false; g_failed = true; errno = EIO; return true; }
extern "C" ssize_t read(int fd, void* b, size_t n) { return failing(fd) ? -1 : syscall(SYS_read, fd, b, n); }
extern "C" ssize_t write(int fd, const void* b, size_t n) { return failing(fd) ? -1 : syscall(SYS_write, fd, b, n); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) { return failing(fd) ? -1 : syscall(SYS_writev, fd, v, n); }

static void collect(AttributeTree* t, const string& prefix, Values& out)
{
  for (AttributeTree* k = t->firstSubTree(); k; k = t->nextSubTree(k))
  {
    string d = k->getDescription() ? k->getDescription() : "(null)";
    if (d == AttributeTree::m_file_path_str || d == AttributeTree::m_file_name_str) continue;
    string p = prefix.empty() ? d : prefix + "." + d;
    if (k->attribute())
    {
      if (out.count(p)) p += "#";
      out[p] = k->attribute();
    }
    collect(k, p, out);
  }
}
static Values valuesOf(AttributeTree& t)
{
  Values v;
  if (t.attribute()) v["(self)"] = t.attribute();
  collect(&t, "", v);
  return v;
}
static string show(const Values& v)
{
  string s;
  for (auto& e : v) s += e.first + "=" + mc::quote(e.second.size() > 60 ? e.second.substr(0, 20) + mc::format("...%zu", e.second.size()) : e.second) + " ";
  return s;
}
static void writeFile(const string& name, const string& text) { std::ofstream(name, std::ios::binary) << text; }
static void quiet() { static bool done = false; if (!done) { done = true; if (!freopen("/dev/null", "w", stdout)) abort(); } }

// ---------------------------------------------------------------- write and read back
static const char* const PATHS[] = { "a", "a.b", "a.b.c", "a.b.d", "a.e", "f", "f.g h" };
static const char* const VALUES[] = { "1", "", "x:y", " { } ", "#h" };
static void roundTrip(bool comments)
{
  AttributeTree t;
  Values want, wantComments;
  int n = 1 + mc::choose(mc::thorough() ? 5 : comments ? 3 : 4, "entries");
  int last = -1;
  for (int i = 0; i < n; ++i)
  {
    int room = int(sizeof PATHS / sizeof *PATHS) - 1 - last;
    if (room <= 0) mc::prune();
    last += 1 + mc::choose(room, "path");
    const char* v = i < (comments ? 1 : 2) ? mc::pick(VALUES, "value") : VALUES[mc::choose(2, "value")];
    t.setAttribute(PATHS[last], v);
    want[PATHS[last]] = v;
    mc::transition();
  }
  if (comments)
  {
    static const char* const AT[] = { "", "a", "a.b", "f" };
    const char* const TEXT[] = { "note", "line 1\nline 2", "x:1\n{\n}y", "" };
    string p = mc::pick(AT, "commented");
    AttributeTree* node = p.empty() ? &t : t.setAttribute(p.c_str(), want.count(p) ? want[p].c_str() : nullptr);
    int which = mc::choose(5, "comment");
    string name = (p.empty() ? "" : p + ".") + "_COMMENT_";
    if (which == 4) node->setAttribute("_COMMENT_", nullptr);
    else { node->setComment(TEXT[which]); wantComments[name] = TEXT[which]; }
    MC_CHECK(node->hasComment() == (which != 4) && string(node->comment()) == (which == 4 ? "" : TEXT[which]), "F02-comment", "comment not stored");
    MC_CHECK(node->hasMultilineComment() == (which == 1 || which == 2), "F02-comment", "multi-line comment not recognised");
  }
  int depth = 1 + mc::choose(4, "style");
  bool file = mc::flip("file"), load = comments && mc::flip("load comments"), order = file && mc::flip("order");
  AttributeTree r;
  string text;
  if (file)
  {
    quiet();
    string name = mc::scratch() + "/t.tree";
    MC_CHECK(t.save(name.c_str(), depth, mc::flip("unmark")) == AttributeTree::eOK, "F02-save", "saving fails");
    std::ifstream in(name); std::stringstream ss; ss << in.rdbuf(); text = ss.str();
    MC_CHECK(r.load(name.c_str(), true, true, load, order) == AttributeTree::eOK, "F02-load", "loading a saved tree fails: %s", mc::quote(text).c_str());
    MC_CHECK(!r.changed(), "F02-load", "a loaded tree counts as changed");
    MC_CHECK(string(r.fileName()) == "t.tree" && string(r.getFilePath()) == mc::scratch() + "/", "F02-load", "file name '%s' path '%s'", r.fileName(), r.getFilePath());
    MC_CHECK(string(r.getAttribute(AttributeTree::m_file_name_str, "")) == "t.tree", "F02-load", "file name attribute");
  }
  else
  {
    std::stringstream ss;
    t.printSubTree(ss, depth);
    text = ss.str();
    MC_CHECK(r.get(ss, true, load) < 0, "F02-load", "reading a printed tree fails: %s", mc::quote(text).c_str());
  }
  if (load) want.insert(wantComments.begin(), wantComments.end());
  Values got = valuesOf(r), same = valuesOf(t);
  MC_CHECK(got == want, "F02-roundtrip", "read back %s instead of %s from %s", show(got).c_str(), show(want).c_str(), mc::quote(text).c_str());
  if (!load) want.insert(wantComments.begin(), wantComments.end());
  MC_CHECK(same == want, "F02-roundtrip", "writing changed the tree to %s", show(same).c_str());
  if (order)
  {
    // the order of the top-level entries survives
    vector<string> a, b;
    for (AttributeTree* k = t.firstSubTree(); k; k = t.nextSubTree(k)) if (want.count(k->getDescription())) a.push_back(k->getDescription());
    for (AttributeTree* k = r.firstSubTree(); k; k = r.nextSubTree(k)) if (want.count(k->getDescription())) b.push_back(k->getDescription());
    if (!comments) MC_CHECK(a == b, "F02-order", "the order of the entries changed");
  }
}

// a named tree is read back below its name
static void named()
{
  AttributeTree t("root");
  Values want;
  int n = mc::choose(5, "entries");
  static const char* const P[] = { "a", "a.b", "c", "c.d" };
  for (int i = 0; i < n; ++i) { t.setAttribute(P[i], "v"); want[string("root.") + P[i]] = "v"; }
  if (mc::flip("own value")) { t.setAttribute(nullptr, "self"); want["root"] = "self"; }
  std::stringstream ss;
  t.printSubTree(ss, 1 + mc::choose(5, "style"));
  AttributeTree r;
  MC_CHECK(r.get(ss) < 0, "F02-load", "reading a printed tree fails: %s", mc::quote(ss.str()).c_str());
  Values got = valuesOf(r);
  MC_CHECK(got == want, "F02-roundtrip", "read back %s instead of %s from %s", show(got).c_str(), show(want).c_str(), mc::quote(ss.str()).c_str());
}

// ---------------------------------------------------------------- reading texts
struct Ref { Values values; vector<string> path; };
static string join(const vector<string>& p) { string s; for (auto& e : p) s += (s.empty() ? "" : ".") + e; return s; }

static const char* const LINES[] = {
  "a:1", "a.b:2", "  c:3  ", "b{", "}", "  }b", "#x{", "", " ", "_COMMENT_:note", "d._COMMENT_:note", "_COMMENT_{", "}_COMMENT_", ":own", "e:", "f:{x}", "junk", "x.y{",
};
// The reference reads line by line as documented: path:value, path{ ... }, #, comments.
// Returns false if the text is not well formed (then only termination and memory safety count).
static bool reference(const vector<string>& lines, bool comments, Values& out)
{
  vector<string> stack;
  std::set<string> commented;
  for (size_t i = 0; i < lines.size(); ++i)
  {
    string l = lines[i];
    l.erase(0, std::min(l.find_first_not_of(" \t"), l.size()));
    if (l.empty() || l[0] == '#') continue;
    size_t colon = l.find(':');
    string base = join(stack);
    if (colon != string::npos)
    {
      string k = l.substr(0, colon), v = l.substr(colon + 1);
      if (k.find("_COMMENT_") != string::npos && !comments) continue;
      string p = k.empty() ? base : base.empty() ? k : base + "." + k;
      if (k == "_COMMENT_" && !commented.insert(base).second) return false;   // several comments at one node: order not specified
      out[p.empty() ? "(self)" : p] = v;
      continue;
    }
    if (l == "_COMMENT_{")
    {
      string text; bool any = false, ended = false;
      for (++i; i < lines.size(); ++i)
      {
        string c = lines[i];
        if (c.find("}_COMMENT_") != string::npos) { ended = true; break; }
        c.erase(0, std::min(c.find_first_not_of(" \t"), c.size()));
        c.erase(c.find_last_not_of(" \t") + 1);
        text += (any ? "\n" : "") + c; any = true;
      }
      if (!ended) return comments ? false : true;
      if (comments && !commented.insert(base).second) return false;
      if (comments && any) { string p = base.empty() ? "_COMMENT_" : base + "._COMMENT_"; while (out.count(p)) p += "#"; out[p] = text; }
      continue;
    }
    size_t brace = l.find('{');
    if (brace != string::npos)
    {
      std::istringstream in(l.substr(0, brace)); string part, p = base;
      vector<string> parts;
      while (std::getline(in, part, '.')) parts.push_back(part);
      string whole = join(parts);
      stack.push_back(whole);
      out.erase(join(stack));           // opening a block takes the value away (it is written inside)
      continue;
    }
    if (l[0] == '}')
    {
      if (stack.empty()) return false;
      stack.pop_back();
      continue;
    }
    return false;
  }
  return true;
}
static void texts(bool comments)
{
  int n = 1 + mc::choose(mc::thorough() ? 6 : 5, "lines");
  vector<string> lines;
  for (int i = 0; i < n; ++i) lines.push_back(mc::pick(LINES, "line"));
  mc::transition(n);
  int ending = mc::choose(n >= 5 ? 2 : 3, "ending");      // all lines ended, the last one not ended, CR LF
  string text;
  for (int i = 0; i < n; ++i) text += lines[i] + (i == n - 1 && ending == 1 ? "" : ending == 2 ? "\r\n" : "\n");
  std::istringstream in(text);
  AttributeTree t;
  int r = t.get(in, true, comments);
  Values want, got = valuesOf(t);
  bool ok = reference(lines, comments, want);
  if (!ok) return;
  MC_CHECK(r < 0, "F02-read", "error in line %d reported for %s", r, mc::quote(text).c_str());
  MC_CHECK(got == want, "F02-read", "read %s instead of %s from %s", show(got).c_str(), show(want).c_str(), mc::quote(text).c_str());
}

// an entry the reader cannot interpret is reported, and its line number is right
static void junk()
{
  int before = mc::choose(4, "before"), after = mc::choose(2, "after");
  string text;
  for (int i = 0; i < before; ++i) text += mc::format("k%d:v\n", i);
  text += "junk"; bool ended = mc::flip("ended") || after;
  if (ended) text += "\n";
  if (after) text += "z:1\n";
  string name = mc::scratch() + "/j.tree";
  writeFile(name, text);
  AttributeTree t, u;
  std::istringstream in(text);
  quiet();
  MC_CHECK(t.get(in) >= 0, "F02-junk", "uninterpretable line not reported in %s", mc::quote(text).c_str());
  MC_CHECK(u.load(name.c_str()) == AttributeTree::eFILE_LOAD_ERROR, "F02-junk", "loading a file with an uninterpretable line succeeds");
  for (int i = 0; i < before; ++i) MC_CHECK(t.getAttribute(mc::format("k%d", i).c_str()), "F02-junk", "entry before the bad line lost");
  // a file that cannot be read
  AttributeTree w;
  MC_CHECK(w.load(mc::scratch().c_str()) == AttributeTree::eFILE_LOAD_ERROR, "F02-load", "loading a directory succeeds");
  AttributeTree v;
  MC_CHECK(v.load((mc::scratch() + "/nothing").c_str()) == AttributeTree::eFILE_LOAD_ERROR && v.load("") == AttributeTree::eFILE_LOAD_ERROR &&
           v.load(nullptr) == AttributeTree::eFILE_LOAD_ERROR, "F02-load", "loading a missing file succeeds");
  MC_CHECK(t.save((mc::scratch() + "/no/such/dir").c_str()) == AttributeTree::eFILE_SAVE_ERROR, "F02-save", "saving to a missing directory succeeds");
}

// long lines
static void longLines()
{
  static const int LEN[] = { 0, 1, 100, 1990, 1993, 1994, 1995, 1996, 1997, 1998, 1999, 2000, 2001, 3996, 5000, 70000 };
  int len = mc::pick(LEN, "length");
  int kind = mc::choose(5, "kind"), end = mc::choose(3, "ending");
  string e = end == 2 ? "\r\n" : "\n", x(len, 'x'), text;
  Values want;
  want["p"] = "1";
  text = "p:1" + e;
  if (kind == 0) { text += "a:" + x; want["a"] = x; }
  else if (kind == 1) { text += "k" + x + ":v"; want["k" + x] = "v"; }
  else if (kind == 2) text += "#" + x + ":v";
  else if (kind == 3) text += "_COMMENT_{" + e + x + "y" + e + "}_COMMENT_";
  else { text += string(len, ' ') + "a:1"; want["a"] = "1"; }
  if (end != 1) { text += e + "q:2" + e; want["q"] = "2"; }
  std::istringstream in(text);
  AttributeTree t;
  MC_CHECK(t.get(in) < 0, "F02-read", "a line of %d characters (kind %d) is not read", len, kind);
  Values got = valuesOf(t);
  MC_CHECK(got == want, "F02-read", "read %s instead of %s", show(got).c_str(), show(want).c_str());
  mc::transition(3);
}

// every short byte string: termination and memory safety
static void bytes()
{
  static const char C[] = { 'a', '.', ':', '{', '}', '\n', ' ', '#', '\0', char(0xe4) };
  int n = mc::choose(mc::thorough() ? 7 : 6, "length");
  string s;
  for (int i = 0; i < n; ++i) s += mc::pick(C, "char");
  std::istringstream in(s);
  AttributeTree t;
  t.setAttribute("k", "kept");
  t.get(in, true, true);
  const char* k = t.getAttribute("k");
  MC_CHECK(k && !strcmp(k, "kept"), "F02-read", "reading %s changed another entry", mc::quote(s).c_str());
  std::ostringstream out;
  t.printSubTree(out);
}

// ---------------------------------------------------------------- includes
static void includes()
{
  quiet();
  string d = mc::scratch() + "/inc";
  mkdir(d.c_str(), 0700); mkdir((d + "/sub").c_str(), 0700);
  int kind = mc::choose(8, "include");
  bool process = mc::flip("process"), nested = mc::flip("nested");
  setenv("F02_DIR", d.c_str(), 1);
  static const char* const NAMES[] = { "one.tree", "sub/two.tree", "${F02_DIR}/one.tree", "missing.tree", "main.tree", "sub/../one.tree", "loop.tree", "sub\\two.tree" };
  string name = kind == 2 && mc::flip("absolute") ? d + "/one.tree" : NAMES[kind];
  writeFile(d + "/one.tree", "x:1\ny{\n z:2\n}\nm:inc\n");
  writeFile(d + "/sub/two.tree", "x:1\n_INCLUDE_:three.tree\ny.z:2\nm:inc");
  writeFile(d + "/sub/three.tree", "t:3\n");
  writeFile(d + "/loop.tree", "t:3\n_INCLUDE_:sub/loop2.tree\nu:4\n");
  writeFile(d + "/sub/loop2.tree", "_INCLUDE_:../loop.tree\n_INCLUDE_:../loop.tree\nv:5\n");
  writeFile(d + "/main.tree", string("before:b\nm:first\n") + (nested ? "n{\n" : "") + "_INCLUDE_:" + name + "\n" + (nested ? "}n\n" : "") + "m2:last\nafter:a\n");
  AttributeTree t;
  int r = t.load((d + "/main.tree").c_str(), true, process);
  mc::transition(2);
  MC_CHECK(r == AttributeTree::eOK, "F02-include", "loading fails");
  Values got = valuesOf(t), want;
  string p = nested ? "n." : "";
  want["before"] = "b"; want["after"] = "a"; want["m2"] = "last"; want["m"] = "first";
  if (!process) want[p + "_INCLUDE_"] = name;
  else if (kind == 0 || kind == 1 || kind == 2 || kind == 5 || kind == 7)
  {
    want[p + "x"] = "1"; want[p + "y.z"] = "2"; want[p + "m"] = "inc";
    if (kind == 1 || kind == 7) want[p + "t"] = "3";
  }
  else if (kind == 6) { want[p + "t"] = "3"; want[p + "u"] = "4"; want[p + "v"] = "5"; }
  MC_CHECK(got == want, "F02-include", "include of %s: read %s instead of %s", name.c_str(), show(got).c_str(), show(want).c_str());
  // afterwards the same file can be loaded again
  AttributeTree u;
  MC_CHECK(u.load((d + "/main.tree").c_str(), true, process) == AttributeTree::eOK && valuesOf(u) == want, "F02-include", "second load differs");
}

// ---------------------------------------------------------------- what may be left out
static void ordered(AttributeTree* t, int depth, string& out)
{
  for (AttributeTree* k = t->firstSubTree(); k; k = t->nextSubTree(k))
  {
    string d = k->getDescription() ? k->getDescription() : "(null)";
    out += mc::format("%d/", depth) + d + "=" + (k->attribute() ? k->attribute() : "(none)") + ";";
    ordered(k, depth + 1, out);
  }
}
static string observe(AttributeTree& t)
{
  string s = t.changed() ? "changed " : "unchanged ";
  s += string("path ") + (t.getFilePath() ? t.getFilePath() : "(null)") + " name " + (t.fileName() ? t.fileName() : "(null)") + " ";
  ordered(&t, 0, s);
  return s;
}
static void defaults()
{
  quiet();
  string d = mc::scratch() + "/def";
  mkdir(d.c_str(), 0700);
  writeFile(d + "/inc.tree", "i:9\n_COMMENT_:inner\nj.k:8\n");
  static const char* const PART[] = { "a:1", "b.c.d.e.f:2", "_COMMENT_:note", "_INCLUDE_:inc.tree", "g{\n _COMMENT_:deep\n _INCLUDE_:inc.tree\n h:3\n}g" };
  string text;
  int n = mc::choose(mc::thorough() ? 5 : 4, "parts");
  for (int i = 0; i < n; ++i) text += string(mc::pick(PART, "part")) + "\n";
  string name = d + "/main.tree";
  writeFile(name, text);
  {
    AttributeTree none;
    MC_CHECK(none.getFilePath() && !*none.getFilePath() && none.fileName() && !*none.fileName(), "F02-name", "a tree that was not loaded has file '%s' in '%s'",
             none.fileName() ? none.fileName() : "(null)", none.getFilePath() ? none.getFilePath() : "(null)");
  }
  int kind = mc::choose(3, "operation");
  if (kind == 0)
  {
    int given = mc::choose(4, "given");
    bool unmark = given < 1 || mc::flip("unmark"), process = given < 2 || mc::flip("process"), comments = given >= 3 && mc::flip("comments");
    AttributeTree a, b;
    int x = given == 0 ? a.load(name.c_str()) : given == 1 ? a.load(name.c_str(), unmark) : given == 2 ? a.load(name.c_str(), unmark, process) : a.load(name.c_str(), unmark, process, comments);
    int y = b.load(name.c_str(), unmark, process, comments, false);
    string p = observe(a), q = observe(b);
    MC_CHECK(x == y && p == q, "F02-default", "load with %d optional arguments gives %s, with all %s, for %s", given, p.c_str(), q.c_str(), mc::quote(text).c_str());
    MC_CHECK(y == AttributeTree::eOK && string(b.fileName()) == "main.tree" && string(b.getFilePath()) == d + "/", "F02-name", "loaded from %s but named '%s' in '%s'", name.c_str(), b.fileName(), b.getFilePath());
    MC_CHECK(!unmark || !b.changed(), "F02-default", "a loaded tree counts as changed");
    // the contents themselves: comments and included entries appear exactly as asked for
    bool hasComment = n && q.find("_COMMENT_") != string::npos, hasInclude = q.find("_INCLUDE_") != string::npos, hasIncluded = q.find("i=9") != string::npos;
    bool inText = text.find("_INCLUDE_") != string::npos;
    MC_CHECK(hasComment == (comments && (text.find("_COMMENT_") != string::npos || (process && inText))), "F02-default", "comments %s: %s from %s", comments ? "asked for" : "not asked for", q.c_str(), mc::quote(text).c_str());
    MC_CHECK(hasInclude == (inText && !process) && hasIncluded == (inText && process), "F02-default", "includes %s: %s from %s", process ? "to be processed" : "not to be processed", q.c_str(), mc::quote(text).c_str());
  }
  else if (kind == 1)
  {
    int given = mc::choose(3, "given");
    bool process = given < 1 || mc::flip("process"), comments = given >= 2 && mc::flip("comments");
    if (chdir(d.c_str())) abort();       // without a file the includes are relative to the current directory
    std::istringstream in(text), in2(text);
    AttributeTree a, b;
    int x = given == 0 ? a.get(in) : given == 1 ? a.get(in, process) : a.get(in, process, comments);
    int y = b.get(in2, process, comments, NULL);
    string p = observe(a), q = observe(b);
    MC_CHECK(x == y && p == q, "F02-default", "get with %d optional arguments gives %s, with all %s, for %s", given, p.c_str(), q.c_str(), mc::quote(text).c_str());
    if (!process || text.find("_INCLUDE_") == string::npos) MC_CHECK(b.getFilePath() && !*b.getFilePath() && b.fileName() && !*b.fileName(), "F02-name", "a tree read from a stream is named '%s'", b.fileName());
  }
  else
  {
    int given = mc::choose(2, "given");
    int depth = given < 1 ? 3 : 1 + mc::choose(4, "style");
    AttributeTree a, b;
    std::istringstream in(text), in2(text);
    a.get(in, false, true); b.get(in2, false, true);
    MC_CHECK(a.changed() == (n > 0), "F02-changed", "after reading %d entries changed() says %d", n, int(a.changed()));
    int x = given == 0 ? a.save((d + "/x").c_str()) : a.save((d + "/x").c_str(), depth);
    int y = b.save((d + "/y").c_str(), depth, true);
    std::ifstream fx(d + "/x"), fy(d + "/y"); std::stringstream sx, sy, pa, pb; sx << fx.rdbuf(); sy << fy.rdbuf();
    MC_CHECK(x == y && sx.str() == sy.str() && observe(a) == observe(b), "F02-default", "save with %d optional arguments writes %s, with all %s", given, mc::quote(sx.str()).c_str(), mc::quote(sy.str()).c_str());
    MC_CHECK(!a.changed(), "F02-changed", "still changed after saving");
    if (given) a.printSubTree(pa, depth); else a.printSubTree(pa);
    b.printSubTree(pb, depth, NULL);
    MC_CHECK(pa.str() == pb.str(), "F02-default", "printing with %d optional arguments gives %s, with all %s", given, mc::quote(pa.str()).c_str(), mc::quote(pb.str()).c_str());
    AttributeTree c; std::istringstream in3(text); c.get(in3, false, true);
    if (n > 0)
    { // the device is full
      MC_CHECK(c.save("/dev/full", depth) == AttributeTree::eFILE_SAVE_ERROR && c.changed(), "F02-save", "a file that could not be written counts as saved");
    }
    c.save((d + "/x").c_str(), depth, false);
    MC_CHECK(c.changed() == (n > 0), "F02-changed", "saving without forgetting the changes: changed() says %d", int(c.changed()));
  }
  mc::transition(2);
}

// every single failing step of reading or writing a file is reported
static void faults()
{
  quiet();
  string name = mc::scratch() + "/faults.tree";
  AttributeTree t; Values want;
  int entries = mc::choose(3, "size") * 700 + 1;
  for (int i = 0; i < entries; ++i) { string k = mc::format("k%d.x", i); t.setAttribute(k.c_str(), "some value"); want[k] = "some value"; }
  bool writing = mc::flip("writing"); int step = mc::choose(8, "failing step");
  int r;
  if (writing) { g_failed = false; g_left = step; r = t.save(name.c_str()); g_left = -1; }
  else
  {
    MC_CHECK(t.save(name.c_str()) == AttributeTree::eOK, "F02-save", "saving fails");
    AttributeTree u; g_failed = false; g_left = step; r = u.load(name.c_str()); g_left = -1;
    if (r == AttributeTree::eOK) MC_CHECK(valuesOf(u) == want, "F02-fault", "loading reports success but %zu of %zu entries were read%s", valuesOf(u).size(), want.size(), g_failed ? " after a failure" : "");
  }
  mc::transition();
  MC_CHECK(r == AttributeTree::eOK || g_failed, "F02-fault", "%s fails although no step failed", writing ? "saving" : "loading");
  if (!writing) return;
  if (r == AttributeTree::eOK) { AttributeTree u; MC_CHECK(u.load(name.c_str()) == AttributeTree::eOK && valuesOf(u) == want, "F02-fault", "saving reports success but the file is not complete"); }
  else MC_CHECK(t.changed(), "F02-fault", "a tree that could not be saved counts as unchanged");
}

int main(int argc, char** argv)
{
  return mc::run(argc, argv, {
    mc::Scenario("round-trip", [] { roundTrip(false); }),
    mc::Scenario("round-trip-comments", [] { roundTrip(true); }),
    mc::Scenario("named", named),
    mc::Scenario("texts", [] { texts(false); }).timeout(10),
    mc::Scenario("texts-comments", [] { texts(true); }).timeout(10),
    mc::Scenario("junk", junk),
    mc::Scenario("long-lines", longLines).timeout(10),
    mc::Scenario("bytes", bytes).timeout(10),
    mc::Scenario("includes", includes).forked().timeout(10),
    mc::Scenario("faults", faults).timeout(20),
    mc::Scenario("defaults", defaults).forked().timeout(10),
  });
}
