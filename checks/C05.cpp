// String helpers over every short text.
#include "mc.h"
#include <icl_core/StringHelper.h>
#include <cctype>
using std::string;
static const char ALPHA[] = { 'a', ';', ' ', 'B' };
static string word(int maxLen, const char* alpha, int na)
{
  int n = mc::choose(maxLen + 1, "length"); string s;
  for (int i = 0; i < n; ++i) s += alpha[mc::choose(na, "char")];
  return s;
}
static void splitJoin()
{
  static const char AB[] = { 'a', ';', 'B' };
  string s = word(mc::thorough() ? 9 : 7, AB, 3);
  int dn = mc::choose(4, "delimiter length"); string d;
  for (int i = 0; i < dn; ++i) d += AB[mc::choose(2, "dchar")];
  auto v = icl_core::split(s, d);
  MC_CHECK(!v.empty(), "no-parts", "splitting \"%s\" at \"%s\" yields no part", s.c_str(), d.c_str());
  if (!d.empty())
    for (auto& p : v) MC_CHECK(p.find(d) == string::npos, "delimiter-in-part", "splitting \"%s\" at \"%s\" yields the part \"%s\"", s.c_str(), d.c_str(), p.c_str());
  string j = icl_core::join(v, d);
  MC_CHECK(j == s, "split-join", "splitting \"%s\" at \"%s\" and joining gives \"%s\"", s.c_str(), d.c_str(), j.c_str());
  // leftmost occurrences separate the parts
  std::vector<string> want; 
  if (d.empty()) want.push_back(s);
  else
  {
    size_t from = 0, pos;
    while ((pos = s.find(d, from)) != string::npos) { want.push_back(s.substr(from, pos - from)); from = pos + d.size(); }
    want.push_back(s.substr(from));
    MC_CHECK(v == want, "parts", "splitting \"%s\" at \"%s\" yields %zu parts, expected %zu", s.c_str(), d.c_str(), v.size(), want.size());
  }
  mc::state(mc::hashStr(s, mc::hashStr(d))); mc::transition();
}
static void joinSplit()
{ // joining parts that do not contain the delimiter and splitting again gives the parts
  static const char AB[] = { 'a', 'B' };
  int n = 1 + mc::choose(4, "parts"); std::vector<string> v;
  for (int i = 0; i < n; ++i) v.push_back(word(2, AB, 2));
  static const char* const D[] = { ";", "; ", "::" };
  string d = mc::pick(D, "delimiter");
  string j = icl_core::join(v, d), w;
  for (int i = 0; i < n; ++i) { if (i) w += d; w += v[i]; }
  MC_CHECK(j == w, "join", "join gives \"%s\", expected \"%s\"", j.c_str(), w.c_str());
  auto r = icl_core::split(j, d);
  MC_CHECK(r == v, "join-split", "joined text \"%s\" splits into %zu parts, expected %zu", j.c_str(), r.size(), v.size());
  MC_CHECK(icl_core::join(std::vector<string>(), d).empty(), "join-empty", "joining nothing gives a text");
  mc::state(mc::hashStr(j, mc::hashStr(d))); mc::transition();
}
static void trimming()
{
  static const char AB[] = { 'a', ' ', '\t', '\n', 'B', char(0xe4) };
  string s = word(mc::thorough() ? 8 : 6, AB, 6);
  string t = icl_core::trim(s);
  size_t b = 0, e = s.size();
  auto ws = [](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; };
  while (b < e && ws(s[b])) ++b;
  while (e > b && ws(s[e - 1])) --e;
  MC_CHECK(t == s.substr(b, e - b), "trim", "trim(%s) gives %s", mc::quote(s).c_str(), mc::quote(t).c_str());
  mc::state(mc::hashStr(s)); mc::transition();
}
static void trimBytes()
{
  int a = mc::choose(256, "byte"), b = mc::choose(256, "byte");
  string s; s += char(a); s += char(b);
  string t = icl_core::trim(s);
  auto ws = [](int c) { return c == ' ' || (c >= 9 && c <= 13); };
  string w; if (!(ws(a) && ws(b))) w = s.substr(ws(a) ? 1 : 0, 2 - (ws(a) ? 1 : 0) - (ws(b) ? 1 : 0));
  MC_CHECK(t == w, "trim-bytes", "trim(%s) gives %s", mc::quote(s).c_str(), mc::quote(t).c_str());
  mc::transition();
}
static void padding()
{
  string s = word(5, ALPHA, 4); size_t width = mc::choose(9, "width"); char c = mc::flip("padchar") ? '*' : ' ';
  size_t n = s.size() < width ? width - s.size() : 0;
  string l = icl_core::padLeft<string>(s, width, c), r = icl_core::padRight<string>(s, width, c);
  MC_CHECK(l == string(n, c) + s, "pad-left", "padLeft(\"%s\", %zu) gives \"%s\"", s.c_str(), width, l.c_str());
  MC_CHECK(r == s + string(n, c), "pad-right", "padRight(\"%s\", %zu) gives \"%s\"", s.c_str(), width, r.c_str());
  mc::transition();
}
static void padNumbers()
{
  static const int V[] = { 0, 7, -7, 12345, -12345, 2147483647, -2147483647 - 1 };
  int v = mc::pick(V, "value"); size_t width = mc::choose(14, "width");
  string s = mc::format("%d", v); size_t n = s.size() < width ? width - s.size() : 0;
  string l = icl_core::padLeft<int>(v, width, '0'), r = icl_core::padRight<int>(v, width, '_');
  MC_CHECK(l == string(n, '0') + s, "pad-number", "padLeft(%d, %zu) gives \"%s\"", v, width, l.c_str());
  MC_CHECK(r == s + string(n, '_'), "pad-number", "padRight(%d, %zu) gives \"%s\"", v, width, r.c_str());
  MC_CHECK(icl_core::stringify<int>(v) == s, "stringify", "stringify(%d)", v);
  MC_CHECK(icl_core::stringify<bool>(v > 0) == (v > 0 ? "true" : "false"), "stringify-bool", "stringify(bool)");
  mc::transition();
}
static void cases()
{
  int a = mc::choose(256, "byte"); string s = "x"; s += char(a); s += "Y";
  string l = icl_core::toLower(s), u = icl_core::toUpper(s);
  int la = a >= 'A' && a <= 'Z' ? a + 32 : a, ua = a >= 'a' && a <= 'z' ? a - 32 : a;
  string wl = "x", wu = "X"; wl += char(la); wl += "y"; wu += char(ua); wu += "Y";
  MC_CHECK(l == wl, "lower", "toLower(%s) gives %s", mc::quote(s).c_str(), mc::quote(l).c_str());
  MC_CHECK(u == wu, "upper", "toUpper(%s) gives %s", mc::quote(s).c_str(), mc::quote(u).c_str());
  string w = word(4, ALPHA, 4);
  MC_CHECK(icl_core::toLower(w).size() == w.size() && icl_core::toLower(icl_core::toUpper(w)) == icl_core::toLower(w), "case-laws", "case conversion of \"%s\"", w.c_str());
  mc::transition();
}
static void roundTripNumbers()
{ // printed floating point values carry the type's guaranteed digits
  static const double V[] = { 0, 1, -1, 0.1, 123456.789012345, 1e300, -1e-300, 3.14159265358979, 1e15, 123456789012345.0 };
  double v = mc::pick(V, "value");
  double b = strtod(icl_core::stringify<double>(v).c_str(), nullptr);
  MC_CHECK(mc::format("%.15g", b) == mc::format("%.15g", v), "stringify-double", "stringify(%.17g) reads back as %.17g", v, b);
  float f = float(v); float fb = strtof(icl_core::stringify<float>(f).c_str(), nullptr);
  MC_CHECK(mc::format("%.6g", fb) == mc::format("%.6g", f), "stringify-float", "stringify(%.9g) reads back as %.9g", f, fb);
  mc::transition();
}
int main(int argc, char** argv)
{
  return mc::run(argc, argv, { mc::Scenario("split-join", splitJoin).timeout(5), {"join-split", joinSplit}, {"trim", trimming}, {"trim-bytes", trimBytes}, {"pad", padding},
                               {"pad-numbers", padNumbers}, {"case", cases}, {"numbers", roundTripNumbers} });
}
