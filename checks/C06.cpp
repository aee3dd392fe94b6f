// SchemeParser: all compositions of parts, all pairs of consecutive parses, all short raw texts.
#include "mc.h"
#include <icl_core/SchemeParser.h>
#include <sstream>
#include <cctype>
#include <cstring>
#include <new>
using std::string; using icl_core::Scheme; using icl_core::SchemeParser;
typedef BOOST_SPIRIT_NAMESPACE::parse_info<> Info;

struct Parts { string scheme, spec, anchor; std::vector<std::pair<string, string>> q; };
static string lower(string s) { for (auto& c : s) c = char(tolower(c)); return s; }
static icl_core::SchemeType typeOf(const string& lname)
{
  return lname == "file" ? icl_core::FileScheme : lname == "http" ? icl_core::HttpScheme : lname == "camera" ? icl_core::CameraScheme :
         lname == "gps" ? icl_core::GpsScheme : icl_core::OtherScheme;
}
static string compose(const Parts& p, bool lowerScheme = false)
{
  string s = p.scheme.empty() ? "" : (lowerScheme ? lower(p.scheme) : p.scheme) + "://";
  s += p.spec;
  if (!p.anchor.empty()) s += "#" + p.anchor;
  for (size_t i = 0; i < p.q.size(); ++i) s += (i ? "&" : "?") + p.q[i].first + "=" + p.q[i].second;
  return s;
}
static void compare(const Scheme& r, const Parts& p, const string& text)
{
  string want = p.scheme.empty() ? "" : lower(p.scheme) + "://";
  MC_CHECK(r.scheme_name == want, "scheme-name", "%s: scheme name \"%s\", expected \"%s\"", text.c_str(), r.scheme_name.c_str(), want.c_str());
  MC_CHECK(r.scheme_type == typeOf(lower(p.scheme)), "scheme-type", "%s: scheme type %d", text.c_str(), int(r.scheme_type));
  MC_CHECK(r.specifier == p.spec, "specifier", "%s: specifier \"%s\", expected \"%s\"", text.c_str(), r.specifier.c_str(), p.spec.c_str());
  MC_CHECK(r.anchor == p.anchor, "anchor", "%s: anchor \"%s\", expected \"%s\"", text.c_str(), r.anchor.c_str(), p.anchor.c_str());
  MC_CHECK(r.queries.size() == p.q.size(), "query-count", "%s: %zu queries, expected %zu", text.c_str(), r.queries.size(), p.q.size());
  for (size_t i = 0; i < p.q.size(); ++i)
    MC_CHECK(r.queries[i].name == p.q[i].first && r.queries[i].value == p.q[i].second, "query", "%s: query %zu is %s=%s, expected %s=%s", text.c_str(), i,
             r.queries[i].name.c_str(), r.queries[i].value.c_str(), p.q[i].first.c_str(), p.q[i].second.c_str());
  std::ostringstream os; os << r;
  string back = compose(p, true);
  MC_CHECK(os.str() == back, "print", "%s: printed as \"%s\", expected \"%s\"", text.c_str(), os.str().c_str(), back.c_str());
}
static const char* const SCHEMES[] = { "", "file", "http", "camera", "gps", "ftp", "FILE", "Http", "file+zip", "Gps+x", "a" };
static const char* const SPECS[] = { "x", "/tmp/a.b", "dom.org/p=1&q", "a b", "a-b_c", ":8080//x", "\xc3\xa4", "/" };
static const char* const ANCHORS[] = { "", "top", "a1", "sec-2", "A" };
static const char* const KEYS[] = { "k", "key_1", "K9" };
static const char* const VALS[] = { "v", "a#b", "1=2", "/x/y", "a_b-c.d" };
static Parts any(bool small)
{
  Parts p;
  if (small)
  {
    static const char* const S[] = { "", "file", "Http", "ftp" }; p.scheme = mc::pick(S, "scheme");
    static const char* const P[] = { "x", "/tmp/a.b" }; p.spec = mc::pick(P, "spec");
    if (mc::flip("anchor")) p.anchor = "sec-2";
    int n = mc::choose(3, "queries");
    for (int i = 0; i < n; ++i) p.q.push_back({ KEYS[i], VALS[2 - i] });
    return p;
  }
  p.scheme = mc::pick(SCHEMES, "scheme"); p.spec = mc::pick(SPECS, "spec"); p.anchor = mc::pick(ANCHORS, "anchor");
  int n = mc::choose(mc::thorough() ? 4 : 3, "queries");
  for (int i = 0; i < n; ++i) { string k = mc::pick(KEYS, "key"); p.q.push_back({ k, mc::pick(VALS, "value") }); }
  return p;
}
static void compositions()
{
  Parts p = any(false);
  string text = compose(p); mc::trace("text %s", text.c_str());
  Scheme r; r.scheme_type = icl_core::OtherScheme; Info info;
  bool ok = SchemeParser::parseScheme(text, r, info);
  MC_CHECK(ok && info.full, "rejected", "%s: parsing fails", text.c_str());
  compare(r, p, text);
  mc::state(mc::hashStr(text)); mc::transition();
}
// Consecutive parses on one parser and on one result object: nothing is carried over.
static void pairs()
{
  // the parser lives in memory that has been used before
  struct Place { alignas(SchemeParser) char raw[sizeof(SchemeParser)]; SchemeParser* p; Place() { memset(raw, 1, sizeof raw); p = new (raw) SchemeParser; } ~Place() { p->~SchemeParser(); } } place;
  SchemeParser& parser = *place.p; Scheme r; r.scheme_type = icl_core::OtherScheme; Info info;
  const Scheme& none = parser.getSchemeResult();
  MC_CHECK(none.scheme_type == icl_core::OtherScheme && none.scheme_name.empty() && none.specifier.empty() && none.anchor.empty() && none.queries.empty(), "carried-over", "a new parser has a result before its first parse");
  int n = mc::thorough() ? 3 : 2; string all;
  for (int i = 0; i < n; ++i)
  {
    bool bad = mc::choose(2, "bad") == 1;
    if (bad)
    { // a text that must be rejected: it leaves partial results behind which the next parse must not show
      static const char* const BAD[] = { "", "file://", "http://x#", "ftp://y#an?k", "x?k=1&", "x?a=b&c", "gps://z?=1" };
      string t = mc::pick(BAD, "bad text"); all += t + " ";
      MC_CHECK(!parser.parseScheme(t), "accepted", "%s is accepted", t.c_str());
      MC_CHECK(!parser.getParseInfo().full, "accepted", "%s: the parse info claims a full match", t.c_str());
      SchemeParser::parseScheme(t, r, info);
      continue;
    }
    Parts p = any(true); string text = compose(p); all += text + " ";
    bool ok = parser.parseScheme(text);
    MC_CHECK(ok, "rejected", "%s: parsing fails after earlier parses", text.c_str());
    MC_CHECK(parser.getParseInfo().full, "rejected", "%s: the parse info claims no full match", text.c_str());
    compare(parser.getSchemeResult(), p, text);
    ok = SchemeParser::parseScheme(text, r, info);
    MC_CHECK(ok, "rejected", "%s: parsing fails after earlier parses", text.c_str());
    compare(r, p, text);
    mc::transition(2);
  }
  mc::state(mc::hashStr(all));
}
// independent recogniser of the grammar; returns false or fills the parts
static bool isAl(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool isAn(char c) { return isAl(c) || (c >= '0' && c <= '9'); }
static bool reference(const string& s, Parts& p)
{
  size_t i = 0, n = s.size();
  auto run = [&](size_t k, bool (*f)(char)) { while (k < n && f(s[k])) ++k; return k; };
  size_t k = run(0, isAl);
  if (k > 0)
  {
    while (k < n && s[k] == '+') { size_t e = run(k + 1, isAl); if (e == k + 1) break; k = e; }
    if (s.compare(k, 3, "://") == 0) { p.scheme = s.substr(0, k); i = k + 3; }
  }
  size_t b = i;
  while (i < n && s[i] != '?' && s[i] != '#') ++i;
  if (i == b) return false;
  p.spec = s.substr(b, i - b);
  if (i < n && s[i] == '#')
  {
    size_t e = run(i + 1, isAn);
    if (e == i + 1) return false;
    if (e < n && s[e] == '-') { size_t f = run(e + 1, isAn); if (f > e + 1) e = f; }
    p.anchor = s.substr(i + 1, e - i - 1); i = e;
  }
  if (i == n) return true;
  if (s[i] != '?') return false;
  do
  {
    ++i; size_t e = run(i, isAn);
    if (e == i) return false;
    while (e < n && (isAn(s[e]) || (s[e] == '_' && e + 1 < n && isAn(s[e + 1])))) e += s[e] == '_' ? 2 : 1;
    if (e >= n || s[e] != '=') return false;
    string key = s.substr(i, e - i); i = ++e;
    while (e < n && s[e] != '?' && s[e] != '&' && !isspace((unsigned char)s[e])) ++e;
    if (e == i) return false;
    p.q.push_back({ key, s.substr(i, e - i) }); i = e;
  } while (i < n && s[i] == '&');
  return i == n;
}
static void raw(const char* prefix, const char* alpha, int na, int len)
{
  int n = mc::choose(len + 1, "length"); string s = prefix;
  for (int i = 0; i < n; ++i) s += alpha[mc::choose(na, "char")];
  Parts p; bool want = reference(s, p);
  Scheme r; r.scheme_type = icl_core::OtherScheme; Info info;
  bool ok = SchemeParser::parseScheme(s, r, info);
  MC_CHECK(ok == want, ok ? "accepts-invalid" : "rejects-valid", "%s is %s", mc::quote(s).c_str(), ok ? "accepted" : "rejected");
  MC_CHECK(ok == info.full, "info", "%s: result and parse info differ", mc::quote(s).c_str());
  if (want) compare(r, p, s);
  mc::outcome(want ? "accepted" : "rejected");
  mc::state(mc::hashStr(s)); mc::transition();
}
static void rawTail() { static const char A[] = { 'k', '1', '=', '&', '?', '#', '-', '_', ' ', '\0' }; raw("x", A, 10, mc::thorough() ? 7 : 5); }
static void rawHead() { static const char A[] = { 'a', 'F', '+', ':', '/', '1', '?', '#' }; raw("", A, 8, mc::thorough() ? 8 : 6); }
static void rawQuery() { static const char A[] = { 'k', '=', '&', '_', '#', ' ' }; raw("http://x?k", A, 6, mc::thorough() ? 8 : 6); }
int main(int argc, char** argv)
{
  return mc::run(argc, argv, { {"compositions", compositions}, {"consecutive", pairs}, {"raw-tail", rawTail}, {"raw-head", rawHead}, {"raw-query", rawQuery} });
}
