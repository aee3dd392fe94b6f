// C13: the portable system wrappers against the contracts of the calls they stand for.
#include "mc.h"
#include <cerrno>
#include <cstdarg>
#include <atomic>
#include <cstring>
#include <map>
#include <thread>
#include <vector>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <icl_core/Convert.h>
#include <icl_core/RemoveMemberPointer.h>
#include <icl_core/os_fs.h>
#include <icl_core/os_mem.h>
#include <icl_core/os_string.h>
#include <icl_core/os_thread.h>
#include <icl_core/os_time.h>
using std::string; using std::vector; namespace os = icl_core::os;

// ---------------------------------------------------------------- formatted text
static int viaList(char* b, size_t n, const char* f, ...) { va_list a; va_start(a, f); int r = os::vsnprintf(b, n, f, a); va_end(a); return r; }
template <typename... A> static void formatted(const string& f, A... a)
{
  char want[512]; int len = ::snprintf(want, sizeof want, f.c_str(), a...);
  int n = mc::choose(len + 4, "size"); bool list = mc::flip("argument list");
  size_t size = n == len + 3 ? 400 : size_t(n);
  vector<char> b(512, '\x5a');
  int r = list ? viaList(size ? b.data() : nullptr, size, f.c_str(), a...) : os::snprintf(size ? b.data() : nullptr, size, f.c_str(), a...);
  mc::transition();
  MC_CHECK(r == len, "length", "formatting %s into %zu bytes returns %d, the text has %d", mc::quote(f).c_str(), size, r, len);
  size_t kept = size ? std::min(size - 1, size_t(len)) : 0;
  MC_CHECK(memcmp(b.data(), want, kept) == 0, "text", "formatting %s into %zu bytes yields %s", mc::quote(f).c_str(), size, mc::quote(string(b.data(), kept)).c_str());
  if (size) MC_CHECK(b[kept] == 0, "end", "formatting %s into %zu bytes leaves the text without end", mc::quote(f).c_str(), size);
  for (size_t i = size ? kept + 1 : 0; i < b.size(); ++i) MC_CHECK(b[i] == '\x5a' || i < size, "overrun", "formatting %s into %zu bytes writes byte %zu", mc::quote(f).c_str(), size, i);
}
template <typename... A> static void pieces(int left, const string& f, A... a)
{
  int k = left ? mc::choose(4, "piece") : 3;
  if constexpr (sizeof...(A) < 3)
  {
    static const char* const D[] = { "%d", "%05d|", "100%%%x" }; static const int DV[] = { 0, -1, 2147483647 };
    static const char* const S[] = { "%s", "<%-4s>", "%.2s" }; static const char* const SV[] = { "", "abc", "%d\n\xff" };
    static const char* const F[] = { "%g", "%7.2f", "%e" }; static const double FV[] = { 0.0, -1.25, 1e20 };
    switch (k)
    {
      case 0: { string g = f + mc::pick(D, "format"); int v = mc::pick(DV, "value"); pieces(left - 1, g, a..., v); return; }
      case 1: { string g = f + mc::pick(S, "format"); const char* v = mc::pick(SV, "value"); pieces(left - 1, g, a..., v); return; }
      case 2: { string g = f + mc::pick(F, "format"); double v = mc::pick(FV, "value"); pieces(left - 1, g, a..., v); return; }
    }
  }
  formatted(f, a...);
}
static void format(int n) { static const char* const P[] = { "", "text " }; string f = mc::pick(P, "prefix"); pieces(n, f); }
// ---------------------------------------------------------------- strings and memory
static void strings(int max)
{
  string s; static const char A[] = { 'a', ' ', '\xff', '%' }; int n = mc::choose(max + 1, "length"); for (int i = 0; i < n; ++i) s += mc::pick(A, "character");
  vector<char> b(size_t(n) + 1 + 8, '\x5a'); vector<char> src(s.begin(), s.end()); src.push_back(0); vector<char> same = src;
  char* e = os::stpcpy(b.data() + 4, src.data());
  MC_CHECK(e == b.data() + 4 + n, "end", "the copy of %s ends at %td", mc::quote(s).c_str(), e - b.data() - 4);
  MC_CHECK(memcmp(b.data() + 4, src.data(), size_t(n) + 1) == 0 && src == same, "text", "%s is not copied", mc::quote(s).c_str());
  for (int i = 0; i < 4; ++i) MC_CHECK(b[size_t(i)] == '\x5a', "overrun", "bytes before the copy were written");
  for (size_t i = 4 + size_t(n) + 1; i < b.size(); ++i) MC_CHECK(b[i] == '\x5a', "overrun", "bytes after the copy were written");
  char* d = os::strdup(src.data()); MC_CHECK(d && d != src.data() && strcmp(d, src.data()) == 0, "text", "%s is not duplicated", mc::quote(s).c_str());
  src[0] = 'z'; MC_CHECK(!strcmp(d, s.c_str()), "text", "the duplicate shares its memory"); free(d); mc::transition(2);
}
static void memory(int max)
{
  int to = mc::choose(9, "to"), from = mc::choose(9, "from"), n = mc::choose(max + 1, "count"), value = mc::pick(vector<int>{ 0, 1, 255, 256, -1, 0x1234 }, "value");
  vector<char> a(size_t(max) + 24), b(a.size()); for (size_t i = 0; i < a.size(); ++i) { a[i] = char(i * 7 + 1); b[i] = char(200 - i); }
  vector<char> a0 = a, want = b; for (int i = 0; i < n; ++i) want[size_t(to + i)] = a[size_t(from + i)];
  void* r = os::memcpy(&b[size_t(to)], &a[size_t(from)], size_t(n)); MC_CHECK(r == &b[size_t(to)] && b == want && a == a0, "copy", "copying %d bytes goes wrong", n);
  for (int i = 0; i < n; ++i) want[size_t(to + i)] = char(value);
  r = os::memset(&b[size_t(to)], value, size_t(n)); MC_CHECK(r == &b[size_t(to)] && b == want, "fill", "filling %d bytes with %d goes wrong", n, value); mc::transition(2);
}
// ---------------------------------------------------------------- files
static void files(int ops)
{
  string base = mc::scratch() + "/c13-"; static const char* const N[] = { "a", "b", "sub/c", "none/d", "sub" };
  for (const char* n : { "a", "b", "sub/c" }) ::unlink((base + n).c_str());
  mkdir((base + "sub").c_str(), 0755);
  std::map<string, string> m; auto put = [&](const string& n, const string& t) { FILE* f = fopen((base + n).c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); m[n] = t; };
  auto get = [&](const string& n, string& t) { t.clear(); struct stat s; if (stat((base + n).c_str(), &s) || S_ISDIR(s.st_mode)) return false; FILE* f = fopen((base + n).c_str(), "rb"); if (!f) return false; char b[100]; t.assign(b, fread(b, 1, sizeof b, f)); fclose(f); return true; };
  put("a", "first"); put("b", "second"); uint64_t h = 0;
  for (int i = 0; i < ops; ++i)
  {
    int x = mc::choose(5, "name"), y = mc::choose(6, "operation"); string p = N[x];
    if (y < 5)
    {
      string q = N[y]; bool dirFrom = p == "sub", dirTo = q == "sub"; if (dirFrom && q.substr(0, 4) == "none") { }
      errno = 0; int r = os::rename((base + p).c_str(), (base + q).c_str()), e = errno; mc::transition();
      bool ok; int why = 0;
      if (dirFrom) { ok = dirTo; if (q == "sub/c") why = EINVAL; else if (q == "none/d") why = ENOENT; else if (!ok && m.count(q)) why = ENOTDIR; else if (!ok) { ok = true; } }
      else if (!m.count(p)) { ok = false; why = ENOENT; }
      else if (q == "none/d") { ok = false; why = ENOENT; }
      else if (dirTo) { ok = false; why = p == "sub/c" ? 0 : EISDIR; }
      else ok = true;
      MC_CHECK((r == 0) == ok, "rename", "renaming %s to %s returns %d", p.c_str(), q.c_str(), r);
      if (!ok && why) MC_CHECK(e == why, "reason", "renaming %s to %s fails with %s instead of %s", p.c_str(), q.c_str(), strerror(e), strerror(why));
      if (dirFrom && ok && !dirTo) { MC_CHECK(::rename((base + q).c_str(), (base + "sub").c_str()) == 0, "rename", "the directory was not moved to %s", q.c_str()); }
      else if (ok && p != q && !dirFrom) { m[q] = m[p]; m.erase(p); }
    }
    else
    {
      errno = 0; int r = os::unlink((base + p).c_str()), e = errno; bool ok = m.count(p) > 0; mc::transition();
      MC_CHECK((r == 0) == ok, "unlink", "deleting %s returns %d", p.c_str(), r);
      if (!ok) MC_CHECK(e == (p == "sub" ? EISDIR : ENOENT) || p == "sub", "reason", "deleting %s fails with %s", p.c_str(), strerror(e));
      m.erase(p);
    }
    h = mc::mix(h, uint64_t(x * 6 + y));
    for (const char* n : { "a", "b", "sub/c" }) { string t; bool is = get(n, t); MC_CHECK(is == (m.count(n) > 0) && (!is || t == m[n]), "files", "after that %s %s", n, is ? ("holds " + mc::quote(t)).c_str() : "does not exist"); }
  }
  for (const char* n : { "a", "b", "sub/c" }) ::unlink((base + n).c_str());
  rmdir((base + "sub").c_str()); mc::state(h);
}
// ---------------------------------------------------------------- time
static const int64_t S = 1000000000; static bool g_fake; static int64_t g_now; static int g_broken; static int64_t g_left;
static int asleep(int64_t want, int64_t& left)
{
  int how = g_broken < 2 ? mc::choose(3, "sleep") : 0; if (how) ++g_broken;
  int64_t d = how == 0 ? want : how == 1 ? 0 : want / 2; g_now += d; left = want - d; g_left = left; return how ? -1 : 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { timespec t; if (g_fake) { t.tv_sec = g_now / S; t.tv_nsec = g_now % S; } else syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
extern "C" int clock_gettime(clockid_t c, timespec* t) noexcept { if (!g_fake) return int(syscall(SYS_clock_gettime, c, t)); t->tv_sec = g_now / S; t->tv_nsec = g_now % S; return 0; }
extern "C" int nanosleep(const timespec* t, timespec* r)
{
  if (!g_fake) return int(syscall(SYS_nanosleep, t, r));
  if (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec >= S) { errno = EINVAL; return -1; }
  int64_t left; int x = asleep(int64_t(t->tv_sec) * S + t->tv_nsec, left); if (x && r) { r->tv_sec = left / S; r->tv_nsec = left % S; } if (x) errno = EINTR; return x;
}
extern "C" int clock_nanosleep(clockid_t, int flags, const timespec* t, timespec* r) { if (flags & TIMER_ABSTIME) { timespec d; int64_t v = int64_t(t->tv_sec) * S + t->tv_nsec - g_now; if (v < 0) v = 0; d.tv_sec = v / S; d.tv_nsec = v % S; return nanosleep(&d, nullptr) ? errno : 0; } return nanosleep(t, r) ? errno : 0; }
extern "C" unsigned sleep(unsigned s) { if (!g_fake) { timespec t = { time_t(s), 0 }; syscall(SYS_nanosleep, &t, nullptr); return 0; } int64_t left; return asleep(int64_t(s) * S, left) ? unsigned((left + S - 1) / S) : 0; }
extern "C" int usleep(useconds_t u) { timespec t = { time_t(u / 1000000), long(u % 1000000) * 1000 }; if (!g_fake) return int(syscall(SYS_nanosleep, &t, nullptr)); return nanosleep(&t, nullptr); }
struct Fake { Fake() { g_fake = true; g_broken = 0; g_now = 1000000000 * S + 123456789; } ~Fake() { g_fake = false; } };
static void times()
{
  Fake f; int what = mc::choose(4, "call"); int64_t from = g_now;
  if (what == 0)
  {
    static const int64_t T[] = { 0, 999999999, 1000, 1500000000ll * S + 999999000, 2000000000ll * S + 1 }; g_now = mc::pick(T, "time"); timespec t; memset(&t, 0x5a, sizeof t); os::gettimeofday(&t); mc::transition();
    MC_CHECK(t.tv_sec == g_now / S, "time", "the seconds are %ld", long(t.tv_sec)); MC_CHECK(t.tv_nsec >= 0 && t.tv_nsec / 1000 == g_now % S / 1000, "time", "the nanoseconds are %ld instead of %ld", long(t.tv_nsec), long(g_now % S)); return;
  }
  if (what == 1)
  {
    static const timespec T[] = { { 0, 0 }, { 0, 1 }, { 0, 999999999 }, { 3, 500000000 }, { 86400, 0 }, { -1, 0 }, { 0, -1 }, { 0, 1000000000 } };
    timespec t = mc::pick(T, "time"), r = { 77, 77 }; bool want = mc::flip("remainder"), bad = t.tv_sec < 0 || t.tv_nsec < 0 || t.tv_nsec >= S;
    errno = 0; int x = want ? os::nanosleep(&t, &r) : os::nanosleep(&t); mc::transition(); int e = errno; int64_t all = int64_t(t.tv_sec) * S + t.tv_nsec, slept = g_now - from;
    if (bad) { MC_CHECK(x == -1 && e == EINVAL && slept == 0, "invalid", "an invalid time yields %d and %s", x, strerror(e)); return; }
    if (g_broken) { MC_CHECK(x == -1 && e == EINTR, "interrupted", "an interrupted sleep yields %d", x); if (want) MC_CHECK(int64_t(r.tv_sec) * S + r.tv_nsec == all - slept, "remainder", "the remainder is wrong"); }
    else MC_CHECK(x == 0 && slept == all, "slept", "slept %lld ns of %lld, result %d", (long long)slept, (long long)all, x);
    return;
  }
  if (what == 2)
  {
    static const unsigned T[] = { 0, 1, 7, 100000 }; unsigned s = mc::pick(T, "seconds"), x = os::sleep(s); mc::transition();
    if (g_broken) MC_CHECK(x == unsigned((g_left + S - 1) / S), "interrupted", "an interrupted sleep of %u s yields %u", s, x); else MC_CHECK(x == 0 && g_now - from == int64_t(s) * S, "slept", "slept %lld ns instead of %u s", (long long)(g_now - from), s);
    return;
  }
  static const unsigned long T[] = { 0, 1, 999999, 1000000, 30000000 }; unsigned long u = mc::pick(T, "microseconds"); int x = os::usleep(u); mc::transition();
  if (g_broken) MC_CHECK(x == -1, "interrupted", "an interrupted sleep yields %d", x); else MC_CHECK(x == 0 && g_now - from == int64_t(u) * 1000, "slept", "slept %lld ns instead of %lu us", (long long)(g_now - from), u);
}
// ---------------------------------------------------------------- threads
static void threads()
{
  int n = 2 + mc::choose(3, "threads"); const size_t count = size_t(n); vector<icl_core::ThreadId> id(count), again(count); vector<pid_t> pid(count); std::atomic<int> in{ 0 }; vector<std::thread> t;
  for (int i = 0; i < n; ++i) t.emplace_back([&, i] { id[size_t(i)] = os::threadSelf(); again[size_t(i)] = os::threadSelf(); pid[size_t(i)] = os::getpid(); ++in; while (in < n) std::this_thread::yield(); });
  for (auto& x : t) x.join();
  for (int i = 0; i < n; ++i)
  {
    MC_CHECK(id[size_t(i)] == again[size_t(i)], "self", "a thread has two names"); MC_CHECK(pid[size_t(i)] == ::getpid(), "process", "the process id differs");
    MC_CHECK(!(id[size_t(i)] == os::threadSelf()), "self", "two threads have the same name");
    for (int k = 0; k < i; ++k) MC_CHECK(!(id[size_t(i)] == id[size_t(k)]), "self", "two threads have the same name");
  }
  mc::transition(n);
}
// ---------------------------------------------------------------- conversions
struct Metres { double v; }; struct Feet { double v; }; struct Member { int x; };
namespace icl_core { template <> void convert<Feet, Metres>(const Metres& m, Feet& f) { f.v = m.v / 0.3048; } }
static void convert()
{
  static const double D[] = { 0, -0.75, 1.5, 1e9, -2147483648.0 }; double d = mc::pick(D, "value"); int i = 7; icl_core::convert(d, i); MC_CHECK(i == int(d), "convert", "%g becomes %d", d, i);
  MC_CHECK((icl_core::convert<int>(d)) == int(d) && icl_core::convert<float>(d) == float(d) && icl_core::convert<string>("text") == "text", "convert", "the converted value is wrong");
  Metres m = { d }; Feet f = { 77 }; icl_core::convert(m, f); MC_CHECK(f.v == d / 0.3048 && icl_core::convert<Feet>(m).v == f.v, "convert", "the specialisation is not used");
  static_assert(std::is_same<icl_core::RemoveMemberPointer<int Member::*>::Type, int>::value && std::is_same<icl_core::RemoveMemberPointer<int*>::Type, int*>::value, "RemoveMemberPointer");
  mc::transition();
}
int main(int argc, char** argv)
{
  bool th = false; for (int i = 1; i < argc; ++i) th |= string(argv[i]) == "--thorough";
  return mc::run(argc, argv, { { "format", [th] { format(3); } }, { "strings", [th] { strings(th ? 7 : 5); } }, { "memory", [th] { memory(th ? 300 : 70); } }, { "files", [th] { files(th ? 4 : 3); } }, { "times", times }, { "threads", threads }, { "convert", convert } });
}
