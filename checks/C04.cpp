// SequenceNumber: complete enumeration of value pairs and increment orbits.
#include "mc.h"
#include <icl_core/SequenceNumber.h>
#include <cstdint>
template <class T, T MAX, T MIN, T INIT> struct Probe
{
  typedef icl_core::SequenceNumber<T, MAX, MIN, INIT> S;
  static int64_t size() { return int64_t(MAX) - int64_t(MIN); }
  static void pairs(int64_t i, int64_t j, const char* name)
  {
    S a{T(MIN + i)}, b{T(MIN + j)};
    int64_t R = size(), d = ((j - i) % R + R) % R;      // b follows a by d steps
    bool lt = a < b, gt = b < a;
    if (d == 0) MC_CHECK(!lt && !gt, "irreflexive", "%s: %lld is ordered before itself", name, (long long)(MIN + i));
    else MC_CHECK(lt != gt, lt ? "both-less" : "neither-less", "%s: %lld and %lld: %s is less than the other", name, (long long)(MIN + i), (long long)(MIN + j), lt ? "each" : "neither");
    if (d > 0 && 2 * d < R) MC_CHECK(lt && !gt, "follows", "%s: %lld is %lld steps before %lld (range %lld) but not less", name, (long long)(MIN + i), (long long)d, (long long)(MIN + j), (long long)R);
    MC_CHECK((a == b) == (d == 0) && (a != b) == (d != 0), "equality", "%s: equality of %lld and %lld", name, (long long)(MIN + i), (long long)(MIN + j));
    MC_CHECK((a > b) == gt, "greater", "%s: %lld > %lld is %d but the reverse < is %d", name, (long long)(MIN + i), (long long)(MIN + j), int(a > b), int(gt));
    MC_CHECK((a <= b) == (lt || d == 0), "less-equal", "%s: <= on %lld and %lld", name, (long long)(MIN + i), (long long)(MIN + j));
    MC_CHECK((a >= b) == (gt || d == 0), "greater-equal", "%s: >= on %lld and %lld", name, (long long)(MIN + i), (long long)(MIN + j));
    // copying and assigning keep the value
    S c(a); MC_CHECK(T(c) == T(MIN + i), "copy", "%s: copy of %lld", name, (long long)(MIN + i));
    c = b; MC_CHECK(T(c) == T(MIN + j), "assign", "%s: assignment of %lld", name, (long long)(MIN + j));
    c = T(MIN + i); MC_CHECK(T(c) == T(MIN + i) && c == a, "assign-raw", "%s: raw assignment of %lld", name, (long long)(MIN + i));
    mc::state(mc::mix(mc::hashStr(name), mc::mix(uint64_t(d), uint64_t(i)))); mc::transition();
  }
  static void step(int64_t i, const char* name)
  {
    S a{T(MIN + i)};
    int64_t nx = i + 1 == size() ? 0 : i + 1;
    S pre(a); S& r = ++pre;
    MC_CHECK(&r == &pre && T(pre) == T(MIN + nx), "increment", "%s: ++%lld gives %lld, expected %lld", name, (long long)(MIN + i), (long long)T(pre), (long long)(MIN + nx));
    S post(a); S old = post++;
    MC_CHECK(T(old) == T(MIN + i) && T(post) == T(MIN + nx), "post-increment", "%s: %lld++ gives %lld leaving %lld", name, (long long)(MIN + i), (long long)T(old), (long long)T(post));
    MC_CHECK(S::maxValue() == MAX && S::minValue() == MIN, "bounds", "%s: reported bounds", name);
    MC_CHECK(T(S()) == INIT, "initial", "%s: initial value %lld", name, (long long)T(S()));
    mc::transition();
  }
  static void all(const char* name, bool doPairs)
  {
    int64_t i = mc::choose(int(size()), "a");
    step(i, name);
    if (doPairs) for (int64_t j = 0; j < size(); ++j) pairs(i, j, name);
  }
  static void orbit(const char* name)
  {
    S a; std::vector<bool> seen(size());
    for (int64_t k = 0; k < size(); ++k)
    {
      int64_t v = int64_t(T(a)) - int64_t(MIN);
      MC_CHECK(v >= 0 && v < size(), "range", "%s: value %lld leaves the range", name, (long long)T(a));
      MC_CHECK(!seen[v], "orbit", "%s: value %lld repeats after %lld steps", name, (long long)T(a), (long long)k);
      seen[v] = true; ++a; mc::transition();
    }
    MC_CHECK(T(a) == INIT, "orbit", "%s: does not return to the start after a full round", name);
  }
};
// boundary values of ranges too large to enumerate
template <class T, T MAX, T MIN, T INIT> static void large(const char* name)
{
  typedef Probe<T, MAX, MIN, INIT> P;
  int64_t R = P::size();
  int64_t B[] = { 0, 1, 2, R / 2 - 2, R / 2 - 1, R / 2, R / 2 + 1, R / 2 + 2, R - 3, R - 2, R - 1, R / 4, 3 * (R / 4) };
  int64_t i = B[mc::choose(13, "a")], j = B[mc::choose(13, "b")];
  P::pairs(i, j, name); P::step(i, name); P::step(j, name);
}
#define SMALL(nm, T, MAX, MIN, INIT) { nm, []{ Probe<T, MAX, MIN, INIT>::all(nm, true); } }, { nm ".orbit", []{ Probe<T, MAX, MIN, INIT>::orbit(nm); } }
#define LARGE(nm, T, MAX, MIN, INIT) { nm, []{ large<T, MAX, MIN, INIT>(nm); } }
int main(int argc, char** argv)
{
  return mc::run(argc, argv, {
    SMALL("u8-0-2", uint8_t, 2, 0, 0), SMALL("u8-0-3", uint8_t, 3, 0, 0), SMALL("u8-0-7", uint8_t, 7, 0, 3), SMALL("u8-0-8", uint8_t, 8, 0, 7),
    SMALL("u8-0-255", uint8_t, 255, 0, 0), SMALL("u8-10-20", uint8_t, 20, 10, 10), SMALL("u8-10-21", uint8_t, 21, 10, 15), SMALL("u8-200-255", uint8_t, 255, 200, 200),
    SMALL("int-0-100", int, 100, 0, 0), SMALL("int--5-5", int, 5, -5, 0), SMALL("int--10--1", int, -1, -10, -10), SMALL("i8--128-127", int8_t, 127, -128, 0),
    SMALL("size-3-12", size_t, 12, 3, 3), SMALL("u16-0-1000", uint16_t, 1000, 0, 0), SMALL("u32-7-500", uint32_t, 500, 7, 8),
    LARGE("u16-full", uint16_t, 65535, 0, 0), LARGE("u32-full", uint32_t, 4294967295u, 0, 0), LARGE("i32-full", int32_t, 2147483647, 0, 0),
    LARGE("u64-32bit", uint64_t, 4294967296ull, 0, 0), LARGE("i64-signed", int64_t, 1000000000000ll, -1000000000000ll, 0) });
}
