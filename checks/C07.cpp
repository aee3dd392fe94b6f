// UnionFind against a naive partition.
#include "mc.h"
#include <icl_core/UnionFind.h>
#include <stdexcept>
struct Model { std::vector<int> c; int next = 0; void add() { c.push_back(next++); } void join(int x, int y) { int a = c[x], b = c[y]; for (auto& v : c) if (v == b) v = a; } };
static void verify(icl_core::UnionFind& u, const Model& m)
{
  MC_CHECK(u.size() == m.c.size(), "size", "size %zu, expected %zu", u.size(), m.c.size());
  std::vector<size_t> r(m.c.size());
  // each element as the first one looked up (lookups change the structure), then all in a row
  for (size_t i = 0; i < r.size(); ++i)
  {
    icl_core::UnionFind first(u); size_t f = first.find(i);
    MC_CHECK(f < r.size() && m.c[f] == m.c[i], "representative", "representative %zu of %zu is not in its class", f, i);
    MC_CHECK(first.find(f) == f && u.find(f) == f, "representative", "%zu represents %zu but not itself", f, i);
  }
  for (size_t i = 0; i < r.size(); ++i)
  {
    r[i] = u.find(i);
    MC_CHECK(r[i] < r.size() && m.c[r[i]] == m.c[i], "representative", "representative %zu of %zu is not in its class", r[i], i);
  }
  for (size_t i = 0; i < r.size(); ++i)
    for (size_t j = 0; j < r.size(); ++j)
      MC_CHECK((r[i] == r[j]) == (m.c[i] == m.c[j]), r[i] == r[j] ? "joined" : "separate", "%zu and %zu are %s", i, j, r[i] == r[j] ? "in one class without a merge" : "in different classes although merged");
}
static void sequences()
{
  int n = mc::choose(4, "size"); icl_core::UnionFind u(n); Model m; for (int i = 0; i < n; ++i) m.add();
  int depth = mc::thorough() ? 5 : 4;
  uint64_t h = n;
  for (int s = 0; s < depth; ++s)
  {
    int z = int(m.c.size());
    int op = mc::choose(4, "op");
    if (op == 0) { int k = mc::choose(3, "grow"); if (z + k > 5) mc::prune(); if (k == 1 && s % 2) u.grow(); else u.grow(k); for (int i = 0; i < k; ++i) m.add(); h = mc::mix(h, 100 + k); }
    else if (op == 1)
    {
      int x = mc::choose(z + 2, "x"), y = mc::choose(z + 2, "y"); size_t sx = x == z + 1 ? ~size_t(0) : x, sy = y == z + 1 ? ~size_t(0) : y;
      bool bad = x >= z || y >= z, thrown = false;
      mc::trace("merge %d %d", x, y);
      try { u.merge(sx, sy); } catch (const std::out_of_range&) { thrown = true; }
      MC_CHECK(thrown == bad, "range", "merge(%zu,%zu) of %d elements %s", sx, sy, z, thrown ? "throws" : "does not throw");
      if (!bad) m.join(x, y);
      h = mc::mix(h, 200 + x * 8 + y);
    }
    else if (op == 2)
    {
      int x = mc::choose(z + 2, "x"); size_t sx = x == z + 1 ? ~size_t(0) : x; bool thrown = false; size_t r = 0;
      try { r = u.find(sx); } catch (const std::out_of_range&) { thrown = true; }
      MC_CHECK(thrown == (x >= z), "range", "find(%zu) of %d elements %s", sx, z, thrown ? "throws" : "does not throw");
      if (x < z) MC_CHECK(int(r) < z && m.c[r] == m.c[x], "representative", "representative %zu of %d is not in its class", r, x);
      h = mc::mix(h, 300 + x);
    }
    else { icl_core::UnionFind c(u); c.grow(1); if (z) c.merge(0, z); u = icl_core::UnionFind(u); h = mc::mix(h, 7); }   // work on a copy does not show
    icl_core::UnionFind copy(u); verify(copy, m);
    mc::transition(); mc::state(h);
  }
  verify(u, m); verify(u, m);
}
// merges only, deeper
static void merges()
{
  int n = 5; icl_core::UnionFind u(n); Model m; for (int i = 0; i < n; ++i) m.add();
  int depth = mc::thorough() ? 6 : 5; bool lookups = mc::flip("lookups between");
  for (int s = 0; s < depth; ++s)
  {
    int k = mc::choose(20, "pair"); int x = k / 4, y = k % 4; if (y >= x) ++y;
    u.merge(x, y); m.join(x, y); mc::transition();
    if (lookups) verify(u, m);
  }
  verify(u, m); std::string key; for (int v : m.c) key += char('a' + v); mc::state(mc::hashStr(key));
}
// tournaments of 8 elements: every rank up to 3 and every path to compress
static void tournaments()
{
  icl_core::UnionFind u(9); Model m; for (int i = 0; i < 9; ++i) m.add();
  bool compress = mc::flip("compress");
  auto go = [&](int a, int b) { if (mc::flip("swap")) std::swap(a, b); u.merge(a, b); m.join(a, b); mc::transition(); };
  for (int i = 0; i < 8; i += 2) { if (mc::thorough()) go(i, i + 1); else { u.merge(i, i + 1); m.join(i, i + 1); } }
  for (int i = 0; i < 8; i += 4) { int a = i + mc::choose(2, "a"), b = i + 2 + mc::choose(2, "b"); go(a, b); }
  if (compress) { size_t x = mc::choose(8, "find"); u.find(x); }
  int a = mc::choose(4, "a"), b = 4 + mc::choose(4, "b"); go(a, b);
  int c = mc::choose(8, "c"); go(8, c);
  icl_core::UnionFind copy(u); verify(copy, m); 
  int x = mc::choose(9, "first lookup"); size_t f = u.find(x); for (int i = 0; i < 9; ++i) if (m.c[i] == m.c[x]) MC_CHECK(u.find(i) == f, "separate", "%d and %d are in different classes although merged", x, i); verify(u, m);
}
int main(int argc, char** argv) { return mc::run(argc, argv, { {"sequences", sequences}, {"merges", merges}, {"tournaments", tournaments} }); }
