// Ring buffer: every operation sequence up to a depth, against a bounded deque.
#include "mc.h"
#include <icl_core/RingBuffer.h>
#include <deque>
#include <set>
#include <sstream>
using icl_core::RingBuffer;
typedef RingBuffer<int> RB;

static std::string show(const std::deque<int>& m)
{
  std::string s = "["; for (int v : m) s += mc::format("%d ", v); return s + "]";
}

// Everything observable in a state must agree with the model.
static void observe(RB& rb, const std::deque<int>& m, size_t cap)
{
  const RB& c = rb;
  MC_CHECK(c.size() == m.size(), "size", "size()=%zu, model %zu %s", size_t(c.size()), m.size(), show(m).c_str());
  MC_CHECK(c.capacity() == cap, "capacity", "capacity()=%zu, model %zu", size_t(c.capacity()), cap);
  MC_CHECK(c.reserve() == cap - m.size(), "reserve", "reserve()=%zu, model %zu", size_t(c.reserve()), cap - m.size());
  MC_CHECK(c.empty() == m.empty(), "empty", "empty()=%d", c.empty());
  MC_CHECK(c.full() == (m.size() == cap), "full", "full()=%d size=%zu cap=%zu", c.full(), m.size(), cap);
  for (size_t i = 0; i < m.size(); ++i)
  {
    MC_CHECK(c.at(i) == m[i], "at", "at(%zu)=%d, model %d", i, c.at(i), m[i]);
    MC_CHECK(rb.at(i) == m[i], "at", "mutable at(%zu)=%d, model %d", i, rb.at(i), m[i]);
  }
  for (size_t i = m.size(); i < m.size() + 3; ++i)
  {
    bool t = false; try { c.at(i); } catch (std::out_of_range&) { t = true; }
    MC_CHECK(t, "at-range", "at(%zu) with %zu elements did not throw", i, m.size());
  }
  if (!m.empty()) MC_CHECK(c.front() == m.front() && rb.front() == m.front(), "front", "front()");
  // contiguous blocks: together they are exactly the contents / exactly the free space
  auto a1 = c.arrayOne(), a2 = c.arrayTwo();
  std::deque<int> got;
  for (size_t i = 0; i < a1.second; ++i) got.push_back(a1.first[i]);
  for (size_t i = 0; i < a2.second; ++i) got.push_back(a2.first[i]);
  MC_CHECK(got == m, "arrays", "arrayOne/Two %s, model %s", show(got).c_str(), show(m).c_str());
  auto b1 = rb.arrayOne(), b2 = rb.arrayTwo();
  MC_CHECK(b1.first == a1.first && b1.second == a1.second && b2.second == a2.second && (b2.second == 0 || b2.first == a2.first), "arrays", "mutable and const blocks differ");
  MC_CHECK(!(a1.second == 0 && a2.second > 0), "arrays", "first block empty, second not");
  auto e1 = rb.emptyArrayOne(), e2 = rb.emptyArrayTwo();
  auto f1 = c.emptyArrayOne(), f2 = c.emptyArrayTwo();
  MC_CHECK(e1.second + e2.second == cap - m.size(), "empty-arrays", "free blocks %zu+%zu, model %zu", size_t(e1.second), size_t(e2.second), cap - m.size());
  MC_CHECK(e1.second == f1.second && e2.second == f2.second && (e1.second == 0 || e1.first == f1.first) && (e2.second == 0 || e2.first == f2.first), "empty-arrays", "mutable and const free blocks differ");
  std::set<const int*> used, fr;
  for (size_t i = 0; i < a1.second; ++i) used.insert(a1.first + i);
  for (size_t i = 0; i < a2.second; ++i) used.insert(a2.first + i);
  for (size_t i = 0; i < e1.second; ++i) fr.insert(e1.first + i);
  for (size_t i = 0; i < e2.second; ++i) fr.insert(e2.first + i);
  MC_CHECK(used.size() == m.size() && fr.size() == cap - m.size(), "empty-arrays", "blocks overlap");
  for (const int* p : fr) MC_CHECK(!used.count(p), "empty-arrays", "free block overlaps contents");
  // iterators
  std::deque<int> fw, bw;
  for (RB::const_iterator it = c.begin(); it != c.end(); ++it) { fw.push_back(*it); if (fw.size() > m.size() + 1) break; }
  MC_CHECK(fw == m, "iterate", "forward iteration %s, model %s", show(fw).c_str(), show(m).c_str());
  if (!m.empty())
  {
    RB::const_iterator it = c.end();
    do { --it; bw.push_front(*it); if (bw.size() > m.size() + 1) break; } while (it != c.begin());
    MC_CHECK(bw == m, "iterate", "backward iteration %s, model %s", show(bw).c_str(), show(m).c_str());
  }
  MC_CHECK(c.end() - c.begin() == ptrdiff_t(m.size()), "iter-diff", "end-begin=%td, size %zu", c.end() - c.begin(), m.size());
  for (size_t i = 0; i <= m.size(); ++i)
    for (size_t j = 0; j <= m.size(); ++j)
    {
      RB::const_iterator a = c.begin(), b = c.begin();
      for (size_t k = 0; k < i; ++k) a++;
      for (size_t k = 0; k < j; ++k) ++b;
      MC_CHECK((a == b) == (i == j) && (a != b) == (i != j), "iter-eq", "iterator equality at %zu,%zu", i, j);
      RB::const_iterator d = a + (ptrdiff_t(j) - ptrdiff_t(i));
      MC_CHECK(d == b, "iter-add", "begin+%zu moved by %td is not begin+%zu", i, ptrdiff_t(j) - ptrdiff_t(i), j);
      RB::const_iterator e = a - (ptrdiff_t(i) - ptrdiff_t(j));
      MC_CHECK(e == b, "iter-add", "iterator subtraction");
      MC_CHECK(b - a == ptrdiff_t(j) - ptrdiff_t(i), "iter-diff", "difference of positions %zu and %zu is %td", j, i, b - a);
      if (j < m.size()) MC_CHECK(*b == m[j] && *b.operator->() == m[j], "iter-deref", "begin+%zu dereferences to %d, model %d", j, *b, m[j]);
    }
}

static uint64_t stateHash(RB& rb, const std::deque<int>& m, size_t cap)
{
  uint64_t h = mc::mix(cap, m.size());
  
  // position of the block inside the storage is part of the abstract state
  const int* base = std::min(std::min(rb.arrayOne().first, rb.arrayTwo().first), std::min(rb.emptyArrayOne().first, rb.emptyArrayTwo().first));
  return mc::mix(h, uint64_t(rb.emptyArrayOne().first - base) * 16 + uint64_t(rb.arrayOne().first - base));
}

static void sequences(size_t cap0, int depth, bool graph)
{
  size_t cap = cap0;
  RB rb(cap);
  std::deque<int> m;
  int next = 1;
  observe(rb, m, cap);
  for (int d = 0; d < depth; ++d)
  {
    int op = mc::choose(12, "op");
    mc::transition();
    switch (op)
    {
    case 0: case 1:   // write without / with overwrite
    {
      bool ow = op == 1; int v = next++;
      mc::trace("write(%d, overwrite=%d)", v, ow);
      bool thrown = false;
      if (cap == 0 && ow) { mc::prune(); }      // a zero-capacity buffer cannot make room
      try { rb.write(v, ow); } catch (std::out_of_range&) { thrown = true; }
      bool expect = m.size() == cap && !ow;
      MC_CHECK(thrown == expect, "write-full", "write on %zu/%zu elements overwrite=%d: thrown=%d", m.size(), cap, ow, thrown);
      if (!thrown) { if (m.size() == cap) m.pop_front(); m.push_back(v); }
      break;
    }
    case 2:
    {
      mc::trace("read()");
      bool thrown = false; int v = 0;
      try { v = rb.read(); } catch (std::out_of_range&) { thrown = true; }
      MC_CHECK(thrown == m.empty(), "read-empty", "read on %zu elements: thrown=%d", m.size(), thrown);
      if (!thrown) { MC_CHECK(v == m.front(), "read-fifo", "read()=%d, model %d", v, m.front()); m.pop_front(); }
      break;
    }
    case 3:
    {
      mc::trace("skip()");
      bool thrown = false;
      try { rb.skip(); } catch (std::out_of_range&) { thrown = true; }
      MC_CHECK(thrown == m.empty(), "skip-empty", "skip on %zu elements: thrown=%d", m.size(), thrown);
      if (!thrown) m.pop_front();
      break;
    }
    case 4:
    {
      size_t n = size_t(mc::choose(int(cap) + 2, "n"));
      mc::trace("skip(%zu)", n);
      rb.skip(n);
      for (size_t i = 0; i < n && !m.empty(); ++i) m.pop_front();
      break;
    }
    case 5: mc::trace("clear()"); rb.clear(); m.clear(); break;
    case 6:
    {
      size_t n = size_t(mc::choose(5, "capacity"));
      mc::trace("setCapacity(%zu)", n);
      rb.setCapacity(n);
      while (m.size() > n) m.pop_front();       // the latest elements are kept
      cap = n;
      break;
    }
    case 7:   // fill free blocks through the raw interface, then publish
    {
      size_t n = size_t(mc::choose(int(cap) + 2, "count"));
      mc::trace("emptyArray fill + fakeWrite(%zu)", n);
      size_t room = cap - m.size(), w = n < room ? n : room;
      auto e1 = rb.emptyArrayOne(); auto e2 = rb.emptyArrayTwo();
      for (size_t i = 0; i < w; ++i)
      {
        int v = next++;
        if (i < e1.second) e1.first[i] = v;
        else { MC_CHECK(i - e1.second < e2.second, "empty-arrays", "free blocks too small"); e2.first[i - e1.second] = v; }
        m.push_back(v);
      }
      rb.fakeWrite(n);
      break;
    }
    case 8:   // copy construct, then mutate the original: the copy keeps the contents
    {
      mc::trace("copy");
      RB copy(rb);
      if (!m.empty()) { rb.at(0) += 1000; observe(copy, m, cap); rb.at(0) -= 1000; }
      rb.clear(); observe(copy, m, cap);
      rb = copy; observe(copy, m, cap);
      break;
    }
    case 9:   // assignment from a buffer of another capacity
    {
      size_t n = size_t(mc::choose(4, "other-capacity"));
      mc::trace("assign from capacity %zu", n);
      RB other(n); std::deque<int> om;
      for (size_t i = 0; i < n; ++i) { int v = next++; other.write(v); om.push_back(v); }
      rb = other; m = om; cap = n;
      break;
    }
    case 10:  // write through reference / iterator
      if (!m.empty())
      {
        size_t i = size_t(mc::choose(int(m.size()), "index"));
        int v = next++;
        mc::trace("at(%zu)=%d", i, v);
        if (i == 0) rb.front() = v; else { RB::iterator it = rb.begin(); it += ptrdiff_t(i); *it = v; }
        m[i] = v;
      }
      else mc::prune();
      break;
    case 11:  // compound: write then read keeps order across the wrap
      mc::trace("rotate");
      if (m.empty()) mc::prune();
      { int v = rb.read(); MC_CHECK(v == m.front(), "read-fifo", "read()=%d, model %d", v, m.front()); rb.write(v); m.pop_front(); m.push_back(v); }
      break;
    }
    observe(rb, m, cap);
    if (graph) mc::dedup(stateHash(rb, m, cap), depth - d);
    else mc::state(stateHash(rb, m, cap));
  }
}

// fixed element types that own memory: contents survive every wrap and resize without leak or double free
struct Counted
{
  static int live;
  int* p;
  Counted(int v = 0) : p(new int(v)) { ++live; }
  Counted(const Counted& o) : p(new int(*o.p)) { ++live; }
  Counted& operator=(const Counted& o) { if (this != &o) { *p = *o.p; } return *this; }
  ~Counted() { delete p; --live; }
};
int Counted::live = 0;

static void owning(int depth)
{
  int before = Counted::live;
  {
    size_t cap = size_t(mc::choose(4, "cap"));
    RingBuffer<Counted> rb(cap); std::deque<int> m; int next = 1;
    for (int d = 0; d < depth; ++d)
    {
      mc::transition();
      switch (mc::choose(4, "op"))
      {
      case 0: if (cap == 0) mc::prune(); rb.write(Counted(next), true); if (m.size() == cap) m.pop_front(); m.push_back(next++); break;
      case 1: if (m.empty()) mc::prune(); { Counted c = rb.read(); MC_CHECK(*c.p == m.front(), "read-fifo", "owning element lost"); m.pop_front(); } break;
      case 2: { size_t n = size_t(mc::choose(5, "capacity")); rb.setCapacity(n); while (m.size() > n) m.pop_front(); cap = n; break; }
      case 3: { RingBuffer<Counted> c(rb); rb = c; break; }
      }
      MC_CHECK(rb.size() == m.size(), "size", "size");
      for (size_t i = 0; i < m.size(); ++i) MC_CHECK(*rb.at(i).p == m[i], "at", "owning element %zu is %d, model %d", i, *rb.at(i).p, m[i]);
      mc::state(mc::mix(mc::mix(cap, m.size()), 99));
    }
  }
  MC_CHECK(Counted::live == before, "leak", "%d element(s) leaked", Counted::live - before);
}

int main(int argc, char** argv)
{
  bool th = false; for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--thorough") th = true;
  std::vector<mc::Scenario> s;
  for (size_t cap = 0; cap <= 4; ++cap)
  {
    s.push_back(mc::Scenario(mc::format("sequences-cap%zu", cap), [=] { sequences(cap, th ? 5 : 4, false); }).limit(th ? 600 : 90));
    s.push_back(mc::Scenario(mc::format("state-graph-cap%zu", cap), [=] { sequences(cap, th ? 40 : 14, true); }).limit(th ? 600 : 90));
  }
  s.push_back(mc::Scenario("owning-elements", [=] { owning(th ? 8 : 6); }).limit(th ? 400 : 60));
  return mc::run(argc, argv, s);
}
