// Value wrappers: Finalizable, AtScopeEnd, DataHeader/Stamped, ExpectedType, bit fields, wrapped vectors.
#include "mc.h"
#include <icl_core/Finalizable.h>
#include <icl_core/AtScopeEnd.h>
#include <icl_core/DataHeader.h>
#include <icl_core/ExpectedType.h>
#include <icl_core/BitfieldHelper.h>
#include <icl_core/VectorWrapper.h>
#include <icl_core/Convert.h>
#include <icl_core/Vector.h>
#include <icl_core/List.h>
#include <icl_core/Explicit.h>
#include <cstring>
#include <new>
#include <sstream>
using std::string;

static void finalizable()
{
  typedef icl_core::Finalizable<string> F;
  struct M { string v; bool fin; };
  F* obj[2] = { new F("a"), new F("b") }; M m[2] = { { "a", false }, { "b", false } };
  int depth = mc::thorough() ? 6 : 5;
  for (int s = 0; s < depth; ++s)
  {
    int op = mc::choose(5, "op"), i = mc::choose(2, "object"), j = 1 - i; bool threw = false;
    switch (op)
    {
      case 0: try { *obj[i] = string(1, char('m' + s)); } catch (const std::logic_error&) { threw = true; }
        MC_CHECK(threw == m[i].fin, "final-assign", "assigning a value to a %s object %s", m[i].fin ? "finalised" : "modifiable", threw ? "throws" : "is accepted");
        if (!threw) m[i].v = string(1, char('m' + s)); break;
      case 1: try { *obj[i] = *obj[j]; } catch (const std::logic_error&) { threw = true; }
        MC_CHECK(threw == m[i].fin, "final-assign", "assigning an object to a %s object %s", m[i].fin ? "finalised" : "modifiable", threw ? "throws" : "is accepted");
        if (!threw) m[i].v = m[j].v; break;
      case 2: obj[i]->finalize(); m[i].fin = true; break;
      case 3: { F* c = new F(*obj[i]); delete obj[j]; obj[j] = c; m[j] = m[i]; break; }
      default: { const F& c = *obj[i]; string v = c; v += "!"; break; }
    }
    for (int k = 0; k < 2; ++k)
      MC_CHECK(string(*obj[k]) == m[k].v && obj[k]->isFinal() == m[k].fin, "final-state", "object %d is \"%s\" final=%d, expected \"%s\" final=%d", k, string(*obj[k]).c_str(), int(obj[k]->isFinal()), m[k].v.c_str(), int(m[k].fin));
    mc::transition(); mc::state(mc::hashStr(m[0].v + "|" + m[1].v, m[0].fin * 2 + m[1].fin));
  }
  std::ostringstream os; *obj[0] << os; MC_CHECK(os.str() == m[0].v, "final-print", "printed as %s", os.str().c_str());
  delete obj[0]; delete obj[1];
}
static void scopeEnd()
{
  int runs = 0; bool enabled = true; int n = mc::choose(4, "toggles"); bool exc = mc::flip("leave by exception"), early = mc::flip("return early");
  struct X { };
  auto body = [&]
  {
    icl_core::AtScopeEnd guard([&] { ++runs; });
    for (int i = 0; i < n; ++i) { if (mc::flip("enable")) { guard.enable(); enabled = true; } else { guard.disable(); enabled = false; } MC_CHECK(runs == 0, "early", "the action runs inside its scope"); }
    if (early) return;
    if (exc) throw X();
  };
  try { body(); } catch (const X&) { }
  MC_CHECK(runs == (enabled ? 1 : 0), "scope-end", "the %s action ran %d times", enabled ? "enabled" : "disabled", runs);
  mc::transition();
}
struct Opaque { int a, b; };
static void stamped()
{
  using namespace icl_core; namespace pt = boost::posix_time;
  int fill = mc::choose(2, "memory") ? 0xff : 0x5a, how = mc::choose(4, "construction");
  pt::ptime when(boost::gregorian::date(2014, 5, 6), pt::hours(7));
  alignas(64) static unsigned char mem[sizeof(Stamped<int>) + 64]; memset(mem, fill, sizeof mem);
  DataHeader h("frame", when, 42); h.dsin = 17;
  Stamped<int>* s = how == 0 ? ::new (mem) Stamped<int>() : how == 1 ? ::new (mem) Stamped<int>(5) : how == 2 ? ::new (mem) Stamped<int>(h) : ::new (mem) Stamped<int>(5, h);
  bool hd = how >= 2;
  const Stamped<int>& c = *s; StampedBase& b = *s;
  MC_CHECK(c.header().coordinate_system == (hd ? "frame" : ""), "header", "coordinate system is \"%s\"", c.header().coordinate_system.c_str());
  MC_CHECK(c.header().sequence_number == (hd ? 42u : 0u), "header", "sequence number is %u", c.header().sequence_number);
  MC_CHECK(c.header().dsin == (hd ? 17u : 0u), "header-dsin", "item number is %zu after construction %d", c.header().dsin, how);
  MC_CHECK(hd ? c.header().timestamp == when : c.header().timestamp.is_not_a_date_time(), "header", "time stamp");
  if (how & 1) MC_CHECK(c.get() == 5 && *c == 5 && c.cget() == 5 && int(c) == 5 && s->get() == 5 && **s == 5, "data", "data is %d", c.get());
  s->get() = 7; MC_CHECK(*c == 7 && &s->get() == &**s && &b.header() == &s->header(), "data", "accessors differ");
  b.header().sequence_number = 9; b.header().coordinate_system = "x"; MC_CHECK(c.header().sequence_number == 9, "header", "header accessors differ");
  Stamped<int> copy(*s); MC_CHECK(*copy == 7 && copy.header().sequence_number == 9 && copy.header().dsin == c.header().dsin, "copy", "copy differs");
  *copy = 8; copy.header().dsin = 3; MC_CHECK(*c == 7 && c.header().dsin != 3, "copy", "copy is shared");
  std::ostringstream os, es; os << b; es << "[seq: 9, timestamp: " << pt::to_simple_string(c.header().timestamp) << ", DSIN: " << c.header().dsin << ", Frame: x; 7]";
  MC_CHECK(os.str() == es.str(), "print", "printed as %s", os.str().c_str());
  memset(mem + sizeof(Stamped<int>), 0, 1);
  s->~Stamped<int>();
  alignas(64) static unsigned char hm[sizeof(DataHeader)]; memset(hm, fill, sizeof hm);
  DataHeader* d = mc::flip("with values") ? ::new (hm) DataHeader("f", when) : ::new (hm) DataHeader();
  MC_CHECK(d->sequence_number == 0 && d->dsin == 0, "header-dsin", "a new header has sequence number %u, item number %zu", d->sequence_number, d->dsin);
  d->~DataHeader();
  Stamped<Opaque> o(Opaque{1, 2}); std::ostringstream oo; oo << o; MC_CHECK(oo.str().find("; 8 data bytes]") != string::npos, "print", "opaque data printed as %s", oo.str().c_str());
  MC_CHECK(o->a == 1 && o->b == 2, "data", "member access");
  mc::transition(10);
}
struct Base { virtual ~Base() { } }; struct Foo : Base { }; struct Bar : Base { };
static void expectedType()
{
  using namespace icl_core; auto mk = [](int k) -> ExpectedType::Ptr { return k == 0 ? ExpectedType::Ptr(new ExpectedTypeIs<Foo>) : k == 1 ? ExpectedType::Ptr(new ExpectedTypeIs<Bar>) : k == 2 ? ExpectedType::Ptr(new ExpectedTypeIs<Base>) : ExpectedType::Ptr(new ExpectedTypeIs<int>); };
  int a = mc::choose(4, "a"), b = mc::choose(4, "b"); auto x = mk(a), y = mk(b);
  MC_CHECK((*x == *y) == (a == b) && (*x != *y) == (a != b), "expected-type", "types %d and %d compare %d", a, b, int(*x == *y));
  MC_CHECK(x->is<Foo>() == (a == 0) && x->is<Bar>() == (a == 1) && x->is<Base>() == (a == 2) && x->is<int>() == (a == 3), "expected-type", "type %d claims to be another", a);
  mc::transition();
}
template <class T> static void bitsOf(const char* name)
{
  int W = int(sizeof(T) * 8); std::vector<T> vals = { T(0), T(~T(0)), T(T(1) << (W - 1)), T(T(1) << (W / 2)), T(0x55), T(T(1) | T(1) << (W - 2)) };
  T v = vals[mc::choose(int(vals.size()), "value")]; int bit = mc::choose(std::min(W, 31), "bit"), two = mc::choose(3, "second bit"); int bits = 1 << bit | (two ? 1 << (two * 3) : 0);
  T mask = T(bits), s = v, c = v; icl_core::setBits<T>(bits, s); icl_core::clearBits<T>(bits, c);
  MC_CHECK(s == T(v | mask), "set-bits", "%s: setting %x in %llx gives %llx, expected %llx", name, bits, (unsigned long long)v, (unsigned long long)s, (unsigned long long)T(v | mask));
  MC_CHECK(c == T(v & T(~mask)), "clear-bits", "%s: clearing %x in %llx gives %llx, expected %llx", name, bits, (unsigned long long)v, (unsigned long long)c, (unsigned long long)T(v & T(~mask)));
  MC_CHECK(icl_core::isBitSet<T>(1 << bit, v) == bool(v >> bit & 1), "bit-set", "%s: bit %d of %llx is reported %d", name, bit, (unsigned long long)v, int(icl_core::isBitSet<T>(1 << bit, v)));
  mc::transition(3);
}
enum E { E0 = 0, E1 = 1, E2 = 2, E4 = 4, EALL = 0xff };
static void bitfields()
{
  switch (mc::choose(6, "type"))
  {
    case 0: bitsOf<uint8_t>("uint8"); break; case 1: bitsOf<uint16_t>("uint16"); break; case 2: bitsOf<uint32_t>("uint32"); break; case 3: bitsOf<uint64_t>("uint64"); break;
    case 4: bitsOf<unsigned long>("unsigned long"); break;
    default:
    {
      int v = mc::choose(8, "value"), b = 1 << mc::choose(3, "bit"); E e = E(v), s = e, c = e; icl_core::setBits<E>(b, s); icl_core::clearBits<E>(b, c);
      MC_CHECK(s == E(v | b) && c == E(v & ~b) && icl_core::isBitSet<E>(b, e) == ((v & b) != 0), "enum-bits", "enumeration value %d bit %d", v, b);
    }
  }
}
class Wrapped { public: ICL_CORE_WRAP_VECTOR(Wrapped, std::vector<int>, protected, m_v); };
class WrappedInit { public: int tag; ICL_CORE_WRAP_VECTOR_INIT(WrappedInit, std::vector<int>, protected, m_v, tag(7)); };
template <class T> class WrappedT { public: ICL_CORE_WRAP_VECTOR_TYPENAME(WrappedT, std::vector<T>, protected, m_v); };
template <class W> static void wrapped()
{
  std::vector<int> m; int ctor = mc::choose(4, "constructor"); static const int src[] = { 4, 5, 6 };
  W* w = ctor == 0 ? new W : ctor == 1 ? new W(typename W::size_type(2), 3) : ctor == 2 ? new W(src, src + 3) : new W(std::vector<int>(2, 9));
  if (ctor == 1) m.assign(2, 3); else if (ctor == 2) m.assign(src, src + 3); else if (ctor == 3) m.assign(2, 9);
  W other; std::vector<int> om;
  for (int s = 0; s < (mc::thorough() ? 4 : 3); ++s)
  {
    int op = mc::choose(12, "op"); size_t n = m.size();
    switch (op)
    {
      case 0: w->push_back(s); m.push_back(s); break;
      case 1: if (!n) mc::prune(); w->pop_back(); m.pop_back(); break;
      case 2: { size_t at = mc::choose(int(n) + 1, "at"); auto it = w->insert(w->begin() + at, 50 + s); MC_CHECK(size_t(it - w->begin()) == at, "wrap-insert", "insert returns position %zu", size_t(it - w->begin())); m.insert(m.begin() + at, 50 + s); break; }
      case 3: { size_t at = mc::choose(int(n) + 1, "at"); w->insert(w->begin() + at, typename W::size_type(2), 60); m.insert(m.begin() + at, 2, 60); break; }
      case 4: { size_t at = mc::choose(int(n) + 1, "at"); w->insert(w->begin() + at, src, src + 2); m.insert(m.begin() + at, src, src + 2); break; }
      case 5: { if (!n) mc::prune(); size_t at = mc::choose(int(n), "at"); w->erase(w->begin() + at); m.erase(m.begin() + at); break; }
      case 6: { size_t a = mc::choose(int(n) + 1, "from"); w->erase(w->begin() + a, w->end()); m.erase(m.begin() + a, m.end()); break; }
      case 7: { size_t k = mc::choose(5, "count"); w->resize(k); m.resize(k); break; }
      case 8: w->resize(n + 1, 8); m.resize(n + 1, 8); break;
      case 9: w->assign(typename W::size_type(1 + s), 2); m.assign(1 + s, 2); break;
      case 10: w->swap(other); m.swap(om); break;
      default: w->assign(src, src + 3); m.assign(src, src + 3); w->reserve(20); break;
    }
    const W& c = *w;
    MC_CHECK(w->size() == m.size() && w->empty() == m.empty() && w->capacity() >= m.size(), "wrap-size", "size %zu, expected %zu", size_t(w->size()), m.size());
    MC_CHECK(std::vector<int>(w->begin(), w->end()) == m && std::vector<int>(c.begin(), c.end()) == m, "wrap-content", "contents differ");
    MC_CHECK(std::vector<int>(w->rbegin(), w->rend()) == std::vector<int>(m.rbegin(), m.rend()) && std::vector<int>(c.rbegin(), c.rend()) == std::vector<int>(m.rbegin(), m.rend()), "wrap-reverse", "reverse contents differ");
    MC_CHECK(std::vector<int>(other.begin(), other.end()) == om, "wrap-other", "the other vector differs");
    if (!m.empty()) MC_CHECK(w->front() == m.front() && w->back() == m.back() && c.front() == m.front() && c.back() == m.back() && (*w)[0] == m[0] && c[m.size() - 1] == m.back() && w->at(0) == m[0] && c.at(0) == m[0], "wrap-access", "element access differs");
    bool threw = false; try { w->at(m.size()); } catch (const std::out_of_range&) { threw = true; } MC_CHECK(threw, "wrap-at", "access behind the end is not refused");
    uint64_t h = 0; for (int v : m) h = mc::mix(h, v); mc::state(h); mc::transition();
  }
  delete w;
}
static void aliases()
{ // vector and list types are the standard containers with the usual constructors
  size_t n = mc::choose(4, "n"); icl_core::Vector<int> v(n, 3), d(n), w(v.begin(), v.end()), x(std::vector<int>(n, 1)); icl_core::List<int> l(n, 4), k(l.begin(), l.end()), c(l);
  MC_CHECK(v.size() == n && d == std::vector<int>(n) && w == v && x == std::vector<int>(n, 1) && l.size() == n && k == l && c == l && (n == 0 || (v[0] == 3 && l.front() == 4)), "alias", "container aliases");
  MC_CHECK(icl_core::convert<int>(3.9) == 3, "convert", "default conversion is not a cast");
  struct Tag { }; icl_core::Explicit<int, Tag> e(int(n) + 1), f; f = e; MC_CHECK(int(f) == int(n) + 1 && f.value == e.value, "explicit", "explicit value");
}
int main(int argc, char** argv)
{
  return mc::run(argc, argv, { {"finalizable", finalizable}, {"scope-end", scopeEnd}, {"stamped", stamped}, {"expected-type", expectedType}, {"bit-fields", bitfields},
                               {"wrapped-vector", wrapped<Wrapped>}, {"wrapped-vector-init", wrapped<WrappedInit>}, {"wrapped-vector-template", wrapped<WrappedT<int>>}, {"aliases", aliases} });
}
