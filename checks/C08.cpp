// KeyValueDirectory, SearchableStack, Array2D, ZBuffer, setRelation, string2Enum against reference models.
#include "mc.h"
#include <icl_core/KeyValueDirectory.h>
#include <icl_core/SearchableStack.h>
#include <icl_core/Array2D.h>
#include <icl_core/ZBuffer.h>
#include <icl_core/SetHelper.h>
#include <icl_core/EnumHelper.h>
#include <map>
#include <set>
#include <functional>
using std::string;

// ---------------------------------------------------------------- key/value directory
static const char* const KEYS[] = { "a", "ab", "b", "/x/1", "" };
struct Q { const char* re; std::function<bool(const string&)> m; std::function<string(const string&)> group1; };
static bool starts(const string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static const Q QUERIES[] = {
  { "a", [](const string& k) { return k == "a"; }, [](const string&) { return string(); } },
  { "a.*", [](const string& k) { return starts(k, "a"); }, [](const string&) { return string(); } },
  { ".*", [](const string&) { return true; }, [](const string&) { return string(); } },
  { "x", [](const string&) { return false; }, [](const string&) { return string(); } },
  { "/x/(.*)", [](const string& k) { return starts(k, "/x/"); }, [](const string& k) { return k.substr(3); } },
  { "(a?)b", [](const string& k) { return k == "ab" || k == "b"; }, [](const string& k) { return k.substr(0, k.size() - 1); } },
  { "b|ab", [](const string& k) { return k == "ab" || k == "b"; }, [](const string&) { return string(); } },
};
static void directory()
{
  icl_core::KeyValueDirectory<int> d; std::map<string, int> m;
  int depth = mc::choose(mc::thorough() ? 6 : 5, "inserts");
  for (int i = 0; i < depth; ++i)
  {
    string k = mc::pick(KEYS, "key"); bool fresh = m.find(k) == m.end();
    bool r = d.insert(k, 10 + i);
    MC_CHECK(r == fresh, "insert-result", "insert(\"%s\") returns %d for %s key", k.c_str(), int(r), fresh ? "a new" : "an existing");
    m[k] = 10 + i; mc::transition();
  }
  static const char* const PROBE[] = { "a", "ab", "b", "/x/1", "", "A", "/x/", "aa" };
  for (auto k : PROBE)
  {
    int v = -1; bool has = m.count(k);
    MC_CHECK(d.hasKey(k) == has, "hasKey", "hasKey(\"%s\") is %d", k, int(d.hasKey(k)));
    MC_CHECK(d.get(k, v) == has, "get", "get(\"%s\") reports %s", k, has ? "absence" : "presence");
    MC_CHECK(v == (has ? m[k] : -1), "get-value", "get(\"%s\") yields %d", k, v);
  }
  int qi = mc::choose(7, "query"); const Q& q = QUERIES[qi];
  std::vector<std::pair<string, int>> want; for (auto& e : m) if (q.m(e.first)) want.push_back(e);
  icl_core::KeyValueDirectoryIterator<int> it = d.find(q.re), other = d.find(".*");
  int resetAt = mc::choose(4, "reset at") - 1;                  // -1: never
  for (int round = 0; round < 2; ++round)
  {
    size_t i = 0; bool cut = false;
    while (it.next())
    {
      MC_CHECK(i < want.size(), "query-extra", "query %s yields the additional key \"%s\"", q.re, it.key().c_str());
      MC_CHECK(it.key() == want[i].first && it.value() == want[i].second, "query-entry", "query %s yields \"%s\"=%d at %zu, expected \"%s\"=%d", q.re, it.key().c_str(), it.value(), i,
               want[i].first.c_str(), want[i].second);
      MC_CHECK(it.matchGroup(0) == it.key(), "match-group", "query %s: match group 0 is \"%s\" for key \"%s\"", q.re, it.matchGroup(0).c_str(), it.key().c_str());
      MC_CHECK(it.matchGroup(1) == q.group1(it.key()), "match-group", "query %s: match group 1 is \"%s\" for key \"%s\"", q.re, it.matchGroup(1).c_str(), it.key().c_str());
      MC_CHECK(it.matchGroup(2).empty(), "match-group", "query %s: match group 2 exists", q.re);
      other.next(); ++i; mc::transition();
      if (round == 0 && resetAt == int(i) - 1) { cut = true; break; }
    }
    if (!cut) MC_CHECK(i == want.size(), "query-missing", "query %s yields %zu of %zu entries%s", q.re, i, want.size(), round ? " after a reset" : "");
    it.reset();
  }
  string st; for (auto& e : m) st += e.first + "=" + std::to_string(e.second) + ";"; mc::state(mc::hashStr(st + q.re));
}
static void directoryOfTexts()
{ // values are independent objects
  icl_core::KeyValueDirectory<string> d; string v = "one"; d.insert("k", v); v = "two"; d.insert("l", v);
  string r; MC_CHECK(d.get("k", r) && r == "one", "get-value", "stored text is %s", r.c_str());
  r = "changed"; string s; MC_CHECK(d.get("k", s) && s == "one", "get-value", "stored text changes through a lookup result");
  icl_core::KeyValueDirectory<string> e(d); e.insert("k", "three"); MC_CHECK(d.get("k", s) && s == "one", "copy", "a copy shares its entries");
  mc::transition();
}
// ---------------------------------------------------------------- searchable stack
static void stack()
{
  icl_core::SearchableStack<int> s; std::vector<int> m; int depth = mc::thorough() ? 8 : 6;
  for (int i = 0; i < depth; ++i)
  {
    int op = mc::choose(6, "op");
    if (op < 3) { s.push(op); m.push_back(op); }
    else if (op == 3) { if (m.empty()) mc::prune(); s.pop(); m.pop_back(); }
    else if (op == 4) { if (m.empty()) mc::prune(); s.top() = 7; m.back() = 7; }
    else { s.clear(); m.clear(); }
    MC_CHECK(s.size() == m.size() && s.empty() == m.empty(), "stack-size", "size %zu, expected %zu", size_t(s.size()), m.size());
    if (!m.empty())
    {
      const icl_core::SearchableStack<int>& cs = s;
      MC_CHECK(s.top() == m.back() && cs.top() == m.back(), "stack-top", "top is %d, expected %d", s.top(), m.back());
    }
    MC_CHECK(std::vector<int>(s.begin(), s.end()) == m, "stack-order", "iteration differs from the pushed order");
    MC_CHECK(std::vector<int>(s.rbegin(), s.rend()) == std::vector<int>(m.rbegin(), m.rend()), "stack-order", "reverse iteration differs from the pushed order");
    for (int v = 0; v < 9; ++v)
    {
      size_t want = std::find(m.begin(), m.end(), v) - m.begin();
      MC_CHECK(size_t(s.find(v) - s.begin()) == want, "stack-find", "find(%d) stops at %zu, expected %zu", v, size_t(s.find(v) - s.begin()), want);
    }
    string st; for (int v : m) st += char('0' + v); mc::state(mc::hashStr(st)); mc::transition();
  }
}
// ---------------------------------------------------------------- 2D array
struct M2 { size_t w = 0, h = 0; std::vector<int> c; };
static void verify(icl_core::Array2D<int>& a, const M2& m)
{
  const icl_core::Array2D<int>& ca = a;
  MC_CHECK(a.width() == m.w && a.height() == m.h && a.size() == m.c.size() && a.empty() == m.c.empty(), "array-size", "%zu x %zu with %zu cells, expected %zu x %zu", a.width(), a.height(), a.size(), m.w, m.h);
  MC_CHECK(std::vector<int>(a.begin(), a.end()) == m.c && std::vector<int>(ca.begin(), ca.end()) == m.c, "array-cells", "cells differ");
  for (size_t y = 0; y < m.h; ++y)
    for (size_t x = 0; x < m.w; ++x)
    {
      size_t i = y * m.w + x, c = 99, r = 99;
      MC_CHECK(a.index1D(x, y) == i, "array-index", "index1D(%zu,%zu) of width %zu is %zu", x, y, m.w, a.index1D(x, y));
      a.indexTo2D(i, c, r);
      MC_CHECK(c == x && r == y, "array-index", "indexTo2D(%zu) of width %zu is (%zu,%zu)", i, m.w, c, r);
      MC_CHECK(&a.at(x, y) == &a[i] && &a(x, y) == &a[i] && &a.at(i) == &a[i] && &ca.at(x, y) == &ca[i] && &ca(x, y) == &ca[i] && &ca.at(i) == &ca[i] && &ca[i] == &a[i],
               "array-access", "accesses to cell (%zu,%zu) differ", x, y);
      MC_CHECK(a(x, y) == m.c[i], "array-cells", "cell (%zu,%zu) is %d, expected %d", x, y, a(x, y), m.c[i]);
    }
}
static void array()
{
  M2 m, n; icl_core::Array2D<int> a; 
  if (mc::flip("sized")) { m.w = mc::choose(4, "w"); m.h = mc::choose(4, "h"); m.c.assign(m.w * m.h, 5); a = icl_core::Array2D<int>(m.w, m.h, 5); }
  icl_core::Array2D<int> b(2, 1, 3); n.w = 2; n.h = 1; n.c = { 3, 3 };
  int depth = mc::thorough() ? 4 : 3;
  for (int i = 0; i < depth; ++i)
  {
    switch (mc::choose(9, "op"))
    {
      case 0: { size_t w = mc::choose(4, "w"), h = mc::choose(4, "h"); a.resize(w, h); m.w = w; m.h = h; m.c.resize(w * h); break; }
      case 1: { size_t w = mc::choose(4, "w"), h = mc::choose(4, "h"); a.resize(w, h, 9); m.w = w; m.h = h; m.c.resize(w * h, 9); break; }
      case 2: { size_t w = mc::choose(4, "w"), h = mc::choose(4, "h"); a.assign(w, h); m.w = w; m.h = h; m.c.assign(w * h, 0); break; }
      case 3: { size_t w = mc::choose(4, "w"), h = mc::choose(4, "h"); a.assign(w, h, 8); m.w = w; m.h = h; m.c.assign(w * h, 8); break; }
      case 4: a.reset(); m.c.assign(m.w * m.h, 0); break;
      case 5: a.set(4); m.c.assign(m.w * m.h, 4); break;
      case 6: a.swap(b); std::swap(m, n); break;
      case 7: { if (m.c.empty()) mc::prune(); size_t x = mc::choose(int(m.w), "x"), y = mc::choose(int(m.h), "y"); a.at(x, y) = 20 + i; m.c[y * m.w + x] = 20 + i; break; }
      default: { icl_core::Array2D<int> c(a); b = c; n = m; if (!m.c.empty()) { c[0] = -1; } break; }
    }
    verify(a, m); verify(b, n); mc::transition();
    uint64_t h = mc::mix(m.w, m.h); for (int v : m.c) h = mc::mix(h, v); mc::state(h);
  }
}
// ---------------------------------------------------------------- depth buffer
template <class C> static void depthBuffer()
{
  C cmp; int size = 1 + mc::choose(2, "size"); icl_core::ZBuffer<int, C> z(size); std::vector<std::pair<bool, int>> m(size, { false, 0 });
  int depth = mc::thorough() ? 6 : 5;
  for (int i = 0; i < depth; ++i)
  {
    int op = mc::choose(5, "op");
    if (op == 4) { z.reset(); for (auto& e : m) e.first = false; }
    else
    {
      int pos = mc::choose(size, "cell"), v = op - 1; bool want = !m[pos].first || cmp(v, m[pos].second);
      bool r = z.update(pos, v); if (want) m[pos] = { true, v };
      MC_CHECK(r == want, "zbuffer-update", "update of cell %d with %d returns %d", pos, v, int(r));
    }
    MC_CHECK(z.size() == size_t(size) && z.buffer().size() == size_t(size), "zbuffer-size", "size %zu, expected %d", size_t(z.size()), size);
    for (int p = 0; p < size; ++p)
    {
      boost::optional<int> x = z.at(p), y = z[p];
      MC_CHECK(bool(x) == m[p].first && x == y && z.buffer()[p] == x && (!x || *x == m[p].second), "zbuffer-cell", "cell %d holds %d, expected %s%d", p, x ? *x : -999, m[p].first ? "" : "nothing, last ", m[p].second);
    }
    uint64_t h = size; for (auto& e : m) h = mc::mix(h, e.first ? e.second + 5 : 0); mc::state(h); mc::transition();
  }
}
// ---------------------------------------------------------------- set relation
template <class C> static void relation()
{
  int n = mc::thorough() ? 7 : 5; int a = mc::choose(1 << n, "first"), b = mc::choose(1 << n, "second");
  std::set<int, C> x, y; for (int i = 0; i < n; ++i) { if (a >> i & 1) x.insert(i); if (b >> i & 1) y.insert(i); }
  auto r = icl_core::setRelation(x, y);
  auto want = a == b ? icl_core::eSR_EQUAL : (a & b) == b ? icl_core::eSR_PROPER_SUPERSET : (a & b) == a ? icl_core::eSR_PROPER_SUBSET : (a & b) ? icl_core::eSR_INTERSECTION_NONEMPTY : icl_core::eSR_DISJUNCT;
  MC_CHECK(r == want, "relation", "sets %x and %x: relation %d, expected %d", a, b, int(r), int(want));
  mc::state(a * 256 + b); mc::transition();
}
// ---------------------------------------------------------------- enumeration texts
static void enums()
{
  static const char* const NULLTERM[] = { "red", "green", "re", "", "Red", "green ", NULL };
  static const char* const MARKED[] = { "red", "green", "re", "", "Red", "green ", "--end--", "beyond" };
  static const std::vector<string> VEC(NULLTERM, NULLTERM + 6);
  static const string TEXTS[] = { "red", "green", "re", "", "Red", "green ", "--end--", "beyond", "RED", "r", "redd", " red", string("red\0x", 5), string("\0", 1), "green\n" };
  string s = mc::pick(TEXTS, "text"); int limit = mc::choose(7, "descriptions");
  const char* nt[8]; const char* mk[9]; for (int i = 0; i < limit; ++i) { nt[i] = NULLTERM[i]; mk[i] = MARKED[i]; }
  nt[limit] = NULL; mk[limit] = "--end--"; mk[limit + 1] = "beyond";
  std::vector<string> vec(VEC.begin(), VEC.begin() + limit);
  int want = -1; for (int i = 0; i < limit; ++i) if (vec[i] == s) want = i;
  int32_t v = -77; bool r = icl_core::string2Enum(s, v, nt);
  MC_CHECK(r == (want >= 0) && v == (want >= 0 ? want : -77), "enum", "%s among the first %d: %s, value %d, expected %d", mc::quote(s).c_str(), limit, r ? "found" : "not found", v, want);
  v = -77; r = icl_core::string2Enum(s, v, mk, "--end--");
  MC_CHECK(r == (want >= 0) && v == (want >= 0 ? want : -77), "enum-marker", "%s among the first %d: %s, value %d, expected %d", mc::quote(s).c_str(), limit, r ? "found" : "not found", v, want);
  v = -77; r = icl_core::string2Enum(s, v, vec);
  MC_CHECK(r == (want >= 0) && v == (want >= 0 ? want : -77), "enum-vector", "%s among the first %d: %s, value %d, expected %d", mc::quote(s).c_str(), limit, r ? "found" : "not found", v, want);
  int64_t w = -77; r = icl_core::string2Enum(s, w, vec);
  MC_CHECK(r == (want >= 0) && w == (want >= 0 ? want : -77), "enum-vector", "%s among the first %d: %s, value %lld, expected %d", mc::quote(s).c_str(), limit, r ? "found" : "not found", (long long)w, want);
  mc::state(mc::hashStr(s, limit)); mc::transition(4);
}
int main(int argc, char** argv)
{
  return mc::run(argc, argv, { {"directory", directory}, {"directory-texts", directoryOfTexts}, {"stack", stack}, {"array", array}, {"depth-buffer", depthBuffer<std::less<int>>},
                               {"depth-buffer-greater", depthBuffer<std::greater<int>>}, {"set-relation", relation<std::less<int>>}, {"set-relation-descending", relation<std::greater<int>>}, {"enum-texts", enums} });
}
