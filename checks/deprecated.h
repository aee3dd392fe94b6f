// Comparison of two spellings of one operation: the observable result of each is turned into text (value, exception, effects)
// and the two texts have to agree.
#ifndef VERIF_DEPRECATED_H
#define VERIF_DEPRECATED_H
#include "mc.h"
#include <sstream>
#include <string>
#include <typeinfo>
#include <stdexcept>
#include <vector>
#include <list>
#include <time.h>
#include <sys/time.h>
namespace dep {
inline std::string repr(const std::string& s)                       // complete, on one line
{
  std::string r = "\""; for (unsigned char c : s) { if (c >= ' ' && c < 127 && c != '"' && c != '\\') r += char(c); else r += mc::format("\\x%02x", c); } return r + "\"";
}
inline std::string repr(const char* s) { return s ? repr(std::string(s)) : "null"; }
inline std::string repr(char* s) { return repr(static_cast<const char*>(s)); }
inline std::string repr(bool b) { return b ? "true" : "false"; }
inline std::string repr(char c) { return std::to_string(int(c)); }
inline std::string repr(signed char c) { return std::to_string(int(c)); }
inline std::string repr(unsigned char c) { return std::to_string(int(c)); }
inline std::string repr(const timespec& t) { return std::to_string(t.tv_sec) + "s" + std::to_string(t.tv_nsec) + "ns"; }
inline std::string repr(const timeval& t) { return std::to_string(t.tv_sec) + "s" + std::to_string(t.tv_usec) + "us"; }
template <typename T> std::string repr(const T& v) { std::ostringstream s; s.precision(20); s << v; return s.str(); }
template <typename T> std::string repr(const std::vector<T>& v) { std::string r = "["; for (const auto& e : v) r += repr(T(e)) + ","; return r + "]"; }
template <typename T> std::string repr(const std::list<T>& v) { std::string r = "("; for (const auto& e : v) r += repr(T(e)) + ","; return r + ")"; }

// the kind of an exception counts, its text does not (it names the operation)
template <typename F> std::string outcome(F f)
{
  try { return f(); }
  catch (const std::out_of_range&) { return "out_of_range"; }
  catch (const std::logic_error&) { return "logic_error"; }
  catch (const std::runtime_error&) { return "runtime_error"; }
  catch (const std::exception& e) { return std::string("exception ") + typeid(e).name(); }
}
template <typename F, typename G> void same(const char* key, const char* what, F current, G compat)
{
  std::string a = outcome(current), b = outcome(compat);
  MC_CHECK(a == b, key, "%s: the compatibility name yields %s, the current name %s", what, b.c_str(), a.c_str());
  mc::transition();
}
}
// value of two expressions
#define SAME(key, current, compat) dep::same(key, #compat, [&] { return dep::repr(current); }, [&] { return dep::repr(compat); })
// two statements; no value
#define SAME_DO(key, current, compat) dep::same(key, #compat, [&] { current; return std::string("done"); }, [&] { compat; return std::string("done"); })
// a name for a type
#define SAME_TYPE(current, compat) do { MC_CHECK((std::is_same<current, compat>::value), "type", "%s is not %s", #compat, #current); mc::transition(); } while (0)
#endif
