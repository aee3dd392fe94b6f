// F01: attribute tree lookups return what was last stored.
#include "mc.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include "icl_core_config/AttributeTree.h"
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <cstring>
#include <algorithm>
using icl_core::config::AttributeTree;
using namespace std;

// reference: a tree of named nodes with an optional value
struct Node
{
  bool has = false;
  string value;
  map<string, Node> kids;
};
static Node* walk(Node& n, const string& path, bool create)
{
  Node* at = &n;
  istringstream in(path);
  string part;
  while (getline(in, part, '.'))
  {
    auto it = at->kids.find(part);
    if (it == at->kids.end())
    {
      if (!create) return nullptr;
      it = at->kids.emplace(part, Node()).first;
    }
    at = &it->second;
  }
  return at;
}
static void values(const Node& n, const string& prefix, map<string, string>& out)
{
  for (auto& k : n.kids)
  {
    string p = prefix.empty() ? k.first : prefix + "." + k.first;
    if (k.second.has) out[p] = k.second.value;
    values(k.second, p, out);
  }
}
static int count(const Node& n) { int c = n.has; for (auto& k : n.kids) c += count(k.second); return c; }
static string text(const Node& n)
{
  string s = n.has ? "=" + n.value : "-";
  for (auto& k : n.kids) s += "[" + k.first + text(k.second) + "]";
  return s;
}

static const char* const PATHS[] = { "a", "b", "a.a", "a.b", "a.b.a", "1", "1.a" };
static const char* const PROBES[] = { "a", "b", "1", "2", "a.a", "a.b", "a.1", "a.b.a", "a.b.b", "b.a", "b.b", "b.a.a", "1.a", "2.a",
                                      "a.b.a.a", "ab", "c", "b1", "b2", "a1", "a2", "b.1" };

static AttributeTree* child(AttributeTree* t, const string& path)
{
  istringstream in(path);
  string part;
  while (t && getline(in, part, '.')) t = t->getSubTree(part.c_str());
  return t;
}

static void compareStructure(AttributeTree* t, const Node& n, const string& where, AttributeTree* parent)
{
  MC_CHECK(t->parentTree() == parent && t->parent() == parent, "F01-structure", "wrong parent of %s", where.c_str());
  const char* v = t->attribute();
  MC_CHECK((v != nullptr) == n.has && (!v || n.value == v), "F01-value", "node %s holds %s, expected %s", where.c_str(),
           v ? v : "(none)", n.has ? n.value.c_str() : "(none)");
  MC_CHECK(t->getAttribute() == v, "F01-value", "accessors disagree at %s", where.c_str());
  set<string> seen;
  AttributeTree* last = nullptr;
  for (AttributeTree* k = t->firstSubTree(); k; k = t->nextSubTree(k))
  {
    MC_CHECK(k != last && k->getDescription(), "F01-structure", "broken subtree list below %s", where.c_str());
    last = k;
    MC_CHECK(seen.insert(k->getDescription()).second, "F01-structure", "two subtrees %s below %s", k->getDescription(), where.c_str());
    auto it = n.kids.find(k->getDescription());
    MC_CHECK(it != n.kids.end(), "F01-structure", "unexpected subtree %s below %s", k->getDescription(), where.c_str());
    compareStructure(k, it->second, where + "." + k->getDescription(), t);
  }
  MC_CHECK(seen.size() == n.kids.size(), "F01-structure", "%zu subtrees below %s, expected %zu", seen.size(), where.c_str(), n.kids.size());
}

static void compare(AttributeTree& t, Node& n)
{
  compareStructure(&t, n, "", nullptr);
  MC_CHECK(t.contains() == count(n), "F01-contains", "contains()=%d, expected %d", t.contains(), count(n));
  for (const char* p : PROBES)
  {
    Node* m = walk(n, p, false);
    bool has = m && m->has;
    AttributeTree* sub = &t;
    const char* got = t.getAttribute(p, "dflt", &sub);
    MC_CHECK(got && (has ? m->value == got : !strcmp(got, "dflt")), "F01-lookup", "lookup of %s yields %s, expected %s", p,
             got ? got : "(null)", has ? m->value.c_str() : "the default");
    MC_CHECK((sub != nullptr) == has && (!sub || sub == child(&t, p)), "F01-lookup", "lookup of %s names the wrong subtree", p);
    const char* got2 = t.getAttribute(p);
    MC_CHECK(has ? got2 && m->value == got2 : !got2, "F01-lookup", "lookup of %s without default yields %s", p, got2 ? got2 : "(null)");
    MC_CHECK((child(&t, p) != nullptr) == (m != nullptr), "F01-lookup", "subtree %s: presence wrong", p);
    MC_CHECK(t.isAttribute(p) == has, "F01-lookup", "isAttribute(%s) wrong", p);
    MC_CHECK(t.isAttribute(p, "x") == (has && m->value == "x"), "F01-lookup", "isAttribute(%s, x) wrong", p);
  }
}

struct Session
{
  unique_ptr<AttributeTree> tree;
  Node ref;
  map<string, string> marked;   // the values when the changes were last unmarked
  bool touched = false;

  Session() : tree(new AttributeTree) { }

  void forget(const string& path)
  {
    size_t dot = path.rfind('.');
    Node* up = dot == string::npos ? &ref : walk(ref, path.substr(0, dot), false);
    up->kids.erase(dot == string::npos ? path : path.substr(dot + 1));
  }

  void step()
  {
    int op = mc::choose(10, "op");
    mc::transition();
    switch (op)
    {
    case 0: case 1: case 2:                       // store a value
    {
      const char* p = mc::pick(PATHS, "path");
      const char* v = op == 0 ? "x" : op == 1 ? "y" : "";
      mc::trace("setAttribute(%s, '%s')", p, v);
      AttributeTree* r = tree->setAttribute(p, v);
      Node* m = walk(ref, p, true);
      m->has = true; m->value = v;
      MC_CHECK(r == child(tree.get(), p), "F01-set", "setAttribute(%s) returns the wrong node", p);
      touched = true;
      break;
    }
    case 3:                                       // create without a value, or take the value away
    {
      const char* p = mc::pick(PATHS, "path");
      mc::trace("setAttribute(%s, NULL)", p);
      AttributeTree* r = tree->setAttribute(p, nullptr);
      Node* m = walk(ref, p, true);
      m->has = false; m->value.clear();
      MC_CHECK(r == child(tree.get(), p), "F01-set", "setAttribute(%s) returns the wrong node", p);
      touched = true;
      break;
    }
    case 4:
    {
      const char* p = mc::pick(PATHS, "path");
      mc::trace("getOrSetDefault(%s, d)", p);
      const char* r = tree->getOrSetDefault(p, "d");
      Node* m = walk(ref, p, false);
      if (!m || !m->has) { m = walk(ref, p, true); m->has = true; m->value = "d"; touched = true; }
      MC_CHECK(r && m->value == r, "F01-default", "getOrSetDefault(%s) yields %s", p, r ? r : "(null)");
      break;
    }
    case 5:                                       // remove a subtree
    {
      const char* p = mc::pick(PATHS, "path");
      AttributeTree* c = child(tree.get(), p);
      if (!c) mc::prune();
      mc::trace("delete %s", p);
      delete c;
      forget(p);
      touched = true;
      break;
    }
    case 6:                                       // move a subtree: unlink it and insert it elsewhere
    {
      const char* p = mc::pick(PATHS, "path");
      AttributeTree* c = child(tree.get(), p);
      if (!c) mc::prune();
      static const char* const TARGETS[] = { "", "b", "a", "after:a", "after:b" };
      string to = mc::pick(TARGETS, "target");
      bool after = to.compare(0, 6, "after:") == 0;
      if (after) to = to.substr(6);
      string from = p;
      if (!to.empty() && (to == from || to.compare(0, from.size() + 1, from + ".") == 0)) mc::prune();
      AttributeTree* target = to.empty() ? tree.get() : child(tree.get(), to);
      if (!target) mc::prune();
      mc::trace("move %s to %s%s", p, after ? "after " : "", to.c_str());
      Node moved = *walk(ref, p, false);
      c->unlink();
      forget(p);
      if (!mc::replaying()) { compareStructure(c, moved, from, nullptr); compare(*tree, ref); }
      AttributeTree* r = after ? target->addNextTree(c) : target->addSubTree(c);
      MC_CHECK(r == c, "F01-add", "the inserted tree is not returned");
      Node* up = after ? &ref : walk(ref, to, false);
      string name = c->getDescription();
      size_t dot = from.rfind('.');
      string old = dot == string::npos ? from : from.substr(dot + 1);
      MC_CHECK(up->kids.count(name) == 0, "F01-add", "inserted under the name %s, which is in use", name.c_str());
      MC_CHECK(name == old || up->kids.count(old), "F01-add", "renamed from %s to %s without need", old.c_str(), name.c_str());
      if (after && target->parentTree() == tree.get())
        MC_CHECK(tree->nextSubTree(target) == c, "F01-add", "not inserted behind the given node");
      up->kids[name] = moved;
      touched = true;
      break;
    }
    case 7:
    {
      int which = mc::choose(3, "where");
      AttributeTree* t = which == 0 ? tree.get() : child(tree.get(), which == 1 ? "a" : "a.b");
      if (!t) mc::prune();
      mc::trace("addNewSubTree at %s", which == 0 ? "root" : which == 1 ? "a" : "a.b");
      Node* up = which == 0 ? &ref : walk(ref, which == 1 ? "a" : "a.b", false);
      AttributeTree* r = t->addNewSubTree();
      MC_CHECK(r && r->parentTree() == t && r->getDescription(), "F01-new", "no new subtree");
      MC_CHECK(up->kids.count(r->getDescription()) == 0, "F01-new", "the new subtree has the used name %s", r->getDescription());
      up->kids[r->getDescription()];
      touched = true;
      break;
    }
    case 8:                                       // copies are independent
    {
      int how = mc::choose(3, "copy");
      mc::trace("copy, variant %d", how);
      if (how == 0)
      {
        unique_ptr<AttributeTree> c(new AttributeTree(*tree));
        compare(*c, ref);
        c->setAttribute("a.b", "changed");
        compare(*tree, ref);
        tree = std::move(c);                       // continue with the copy, the original dies
        Node* m = walk(ref, "a.b", true);
        m->has = true; m->value = "changed";
        touched = true;
      }
      else if (how == 1)
      {
        AttributeTree* a = tree->getSubTree("a");
        if (!a) mc::prune();
        AttributeTree c(*a);
        compareStructure(&c, ref.kids["a"], "copy of a", nullptr);
        c.setAttribute("b", "changed");
      }
      else
      {
        tree->revertOrder();
        vector<string> before, later;
        for (AttributeTree* k = tree->firstSubTree(); k; k = tree->nextSubTree(k)) before.push_back(k->getDescription());
        tree->revertOrder();
        for (AttributeTree* k = tree->firstSubTree(); k; k = tree->nextSubTree(k)) later.push_back(k->getDescription());
        reverse(later.begin(), later.end());
        MC_CHECK(before == later, "F01-order", "reverting the order does not revert it");
      }
      break;
    }
    default:
    {
      mc::trace("unmarkChanges");
      tree->unmarkChanges();
      MC_CHECK(!tree->changed(), "F01-changed", "changed right after the changes were unmarked");
      marked.clear();
      values(ref, "", marked);
      touched = false;
      break;
    }
    }
  }

  uint64_t hash()
  {
    string s = text(ref) + "|" + (touched ? "t" : "");
    for (auto& v : marked) s += v.first + "=" + v.second + ";";
    // the order of the subtrees is part of the state as well
    ostringstream o;
    order(tree.get(), o);
    return mc::hashStr(s + o.str());
  }
  static void order(AttributeTree* t, ostream& o)
  {
    o << (t->changed() ? "(!" : "(") << (t->attribute() ? "=" : "-") << (t->attribute() ? t->attribute() : "");
    for (AttributeTree* k = t->firstSubTree(); k; k = t->nextSubTree(k)) { o << k->getDescription(); order(k, o); }
    o << ")";
  }
};

static void history(int depth)
{
  Session s;
  for (int i = 0; i < depth; ++i)
  {
    s.step();
    if (mc::replaying()) continue;
    mc::dedup(s.hash(), depth - i - 1);
    compare(*s.tree, s.ref);
    if (!s.touched) MC_CHECK(!s.tree->changed(), "F01-changed", "changed although nothing was");
  }
  for (const char* d : { "a", "b", "1", "c" })
    for (const char* v : { (const char*)nullptr, "x", "y" })
    {
      function<bool(const Node&, const string&)> exists = [&](const Node& n, const string& name) {
        if (name == d && (!v || (n.has && n.value == v))) return true;
        for (auto& k : n.kids) if (exists(k.second, k.first)) return true;
        return false;
      };
      AttributeTree* r = s.tree->search(d, v);
      MC_CHECK((r != nullptr) == exists(s.ref, ""), "F01-search", "search(%s, %s) %s", d, v ? v : "NULL", r ? "finds something" : "finds nothing");
      if (r) MC_CHECK(!strcmp(r->getDescription(), d) && (!v || (r->attribute() && !strcmp(r->attribute(), v))), "F01-search", "search finds the wrong node");
    }
}

// every change of a value made through setAttribute is reported until it is unmarked
static void changes()
{
  AttributeTree t;
  map<string, string> val, marked;
  for (int i = 0; i < 4; ++i)
  {
    int k = mc::choose(6, "op");
    mc::transition();
    if (k == 5) { t.unmarkChanges(); marked = val; mc::trace("unmark"); }
    else if (k == 4)
    {
      AttributeTree* c = child(&t, "a.b");
      if (!c) mc::prune();
      mc::trace("delete a.b");
      delete c;
      val.erase("a.b");
    }
    else
    {
      const char* p = k & 1 ? "a.b" : "b";
      const char* v = k & 2 ? "x" : "y";
      mc::trace("set %s %s", p, v);
      t.setAttribute(p, v);
      val[p] = v;
    }
    if (val != marked) MC_CHECK(t.changed(), "F01-changed", "a changed value is not reported as change");
  }
}

// names with digits: a colliding subtree gets an unused name
static void naming()
{
  static const char* const NAMES[] = { "1", "9", "10", "99", "a", "a1", "a9", "a09", "1a", "a-5", "-5", "0", "99999", "a99999", "" };
  string name = mc::pick(NAMES, "name");
  AttributeTree t;
  set<string> used;
  int n = 1 + mc::choose(4, "copies");
  for (int i = 0; i < n; ++i)
  {
    AttributeTree* s = new AttributeTree(name.c_str());
    s->setAttribute(nullptr, "v");
    mc::transition();
    MC_CHECK(t.addSubTree(s) == s, "F01-add", "the inserted tree is not returned");
    MC_CHECK(used.insert(s->getDescription()).second, "F01-add", "name %s given twice", s->getDescription());
    MC_CHECK(i || name == s->getDescription(), "F01-add", "%s renamed to %s without need", name.c_str(), s->getDescription());
    mc::trace("%s", s->getDescription());
  }
  MC_CHECK(t.contains() == n, "F01-contains", "contains()=%d after inserting %d", t.contains(), n);
  AttributeTree nameless;
  AttributeTree* s = new AttributeTree;
  MC_CHECK(t.addSubTree(s) == s && t.addSubTree(nullptr) == nullptr && nameless.addNextTree(s) == nullptr, "F01-add", "insertion result wrong");
}

// unlinking only the subtrees leaves them alive and on their own
static void unlinkSub()
{
  AttributeTree t;
  t.setAttribute("a.b", "x");
  if (mc::flip("two")) t.setAttribute("b", "y");
  AttributeTree* a = t.getSubTree("a"); AttributeTree* b = t.getSubTree("b");
  t.unlinkSub();
  MC_CHECK(!t.firstSubTree() && t.contains() == 0 && !t.getAttribute("a.b"), "F01-unlink", "subtrees still there");
  MC_CHECK(!a->parentTree() && !strcmp(a->getAttribute("b"), "x"), "F01-unlink", "unlinked subtree changed");
  if (mc::flip("again")) t.setAttribute("a", "z");
  delete a;
  if (b) { MC_CHECK(!strcmp(b->attribute(), "y"), "F01-unlink", "unlinked subtree changed"); delete b; }
}

// whatever was done, nothing is left when the tree is destroyed
static void doing(AttributeTree& t, int op, AttributeTree*& loose)
{
  switch (op)
  {
  case 0: t.setAttribute("a.b", "x"); break;
  case 1: t.setAttribute("a", "a longer text than before"); break;
  case 2: t.setAttribute("1.1.1", nullptr); break;
  case 3: if (AttributeTree* k = child(&t, "a.b")) delete k; break;
  case 4: if (AttributeTree* k = child(&t, "a")) delete k; break;
  case 5: { AttributeTree* k = child(&t, "a"); if (!k) break; k->unlink(); if (loose) t.addSubTree(loose); loose = k; break; }
  case 6: { AttributeTree* k = new AttributeTree("a"); k->setAttribute("q", "1"); t.addSubTree(k); break; }
  case 7: t.addNewSubTree()->setAttribute("new"); break;
  case 8: { AttributeTree copy(t); copy.setAttribute("a.b.c", "d"); new AttributeTree(t, &copy); break; }
  case 9: t.getOrSetDefault("d.e", "default"); t.getOrSetDefault("a", "other"); break;
  case 10: { std::istringstream in("b:1\n{\nc:2\n}\n:own\nb:3\n# comment\n"); t.get(in, true, true); break; }
  case 11: { std::ostringstream o; t.printSubTree(o, 0); t.printSubTree(o, 3, "up"); break; }
  case 12: { char* d = t.newSubNodeDescription("a"); free(d); break; }
  case 13: t.setComment("comment"); t.setComment("other comment"); break;
  case 14: t.setDescription("name"); t.appendDescription("more", "-"); t.appendAttribute("text", "+"); break;
  case 15: { t.unlinkSub(); break; }
  case 16: t.revertOrder(); t.search("b", nullptr); t.isAttribute("a.b", "x"); t.getAttribute("a.c", "z"); break;
  case 18: t.setAttribute("a", nullptr); t.setAttribute("a.b", nullptr); break;
  case 17: if (AttributeTree* k = child(&t, "a")) { AttributeTree* m = new AttributeTree("next"); k->addNextTree(m); } break;
  }
}
static void memory()
{
  static const int N = 19;
  int n = mc::thorough() ? 4 : 3, op[4];
  vector<AttributeTree*> kept; kept.reserve(64);
  for (int i = 0; i < n; ++i) op[i] = mc::choose(N, "op");
  mc::transition(uint64_t(n));
  size_t left = 0;
  for (int round = 0; round < 2; ++round)       // the first time, the library may set something up
  {
    size_t before = __sanitizer_get_current_allocated_bytes();
    {
      AttributeTree* t = new AttributeTree("root"); AttributeTree* loose = nullptr;
      for (int i = 0; i < n; ++i)
      {
        // subtrees that are only unlinked belong to the caller
        if (op[i] == 15) for (AttributeTree* k = t->firstSubTree(); k; k = t->nextSubTree(k)) kept.push_back(k);
        doing(*t, op[i], loose);
      }
      delete t; delete loose;
      for (AttributeTree* k : kept) delete k;
      kept.clear();
    }
    left = __sanitizer_get_current_allocated_bytes() - before;
  }
  MC_CHECK(left == 0, "F01-leak", "%zd bytes are left after the operations %d %d %d %d and destruction", ssize_t(left), op[0], op[1], op[2], n > 3 ? op[3] : -1);
}

int main(int argc, char** argv)
{
  return mc::run(argc, argv, {
    mc::Scenario("histories", [] { history(mc::thorough() ? 5 : 4); }),
    mc::Scenario("changes", changes),
    mc::Scenario("names", naming),
    mc::Scenario("unlink-sub", unlinkSub),
    mc::Scenario("memory", memory),
  });
}
