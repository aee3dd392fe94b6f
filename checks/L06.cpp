// L06: log file rotation never loses log lines.
#include "mc.h"
#include <algorithm>
#include <fstream>
#include <iostream>
#include <list>
#include <map>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <boost/filesystem.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/regex.hpp>
#include <boost/shared_ptr.hpp>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <setjmp.h>
#include <stdarg.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <zlib.h>
#define private public      // lines are handed to the output directly
#define protected public
#include "icl_core/BaseTypes.h"
#include "icl_core_config/Config.h"
#include "icl_core_logging/FileLogOutput.h"
#include "icl_core_logging/Logging.h"
#include "icl_core_logging/LoggingManager.h"
#undef private
#undef protected
namespace lg = icl_core::logging;
using std::string;

// ---------------------------------------------------------------- the clock
static bool g_fake = false; static timespec g_now;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { timespec t = g_now; if (!g_fake) syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
extern "C" int clock_gettime(clockid_t c, timespec* t) noexcept { if (g_fake && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { *t = g_now; return 0; } return int(syscall(SYS_clock_gettime, c, t)); }
extern "C" time_t time(time_t* t) noexcept { timespec n; clock_gettime(CLOCK_REALTIME, &n); if (t) *t = n.tv_sec; return n.tv_sec; }

// ---------------------------------------------------------------- faults: one failing step of an archiving, or the end of the process at any step
enum { NONE = 0, FAILING = 1, CRASH = 2 };
static int g_mode, g_left; static bool g_on; static string g_dir, g_log; static sigjmp_buf g_crash;
static string fdPath(int fd) { char l[64], b[512]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, b, sizeof b - 1); if (n < 0) return ""; return string(b, size_t(n)); }
static bool ours(const string& p) { return p.compare(0, g_dir.size(), g_dir) == 0; }
//! A step that changes the directory; true: it has to fail. part: a write may be done in part before the crash.
static bool step(const char* what, string path, bool write, bool* torn = nullptr)
{
  if (!g_on || g_left == 0) return false;
  if (!path.empty() && path[0] != '/') { char cwd[400]; if (getcwd(cwd, sizeof cwd)) path = string(cwd) + "/" + path; }
  if (!ours(path)) return false;
  if (g_mode == FAILING && write && path == g_log) return false;     // only steps of the archiving fail
  g_on = false;
  int n = g_mode == CRASH ? (torn ? 3 : 2) : 2;
  int c = mc::choose(n, what);
  g_on = true;
  if (c == 0) return false;
  --g_left; mc::trace("%s %s: %s", what, path.c_str() + g_dir.size(), g_mode == CRASH ? c == 2 ? "the process ends after half of it" : "the process ends" : "fails");
  if (g_mode == FAILING) return true;
  if (c == 2) { *torn = true; return false; }
  siglongjmp(g_crash, 1);
}
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
extern "C" ssize_t write(int fd, const void* b, size_t n)
{
  bool torn = false;
  if (g_on && step("write", fdPath(fd), true, &torn)) { errno = ENOSPC; return -1; }
  if (torn) { syscall(SYS_write, fd, b, n / 2); siglongjmp(g_crash, 1); }
  return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int n)
{
  bool torn = false;
  if (g_on && step("write", fdPath(fd), true, &torn)) { errno = ENOSPC; return -1; }
  if (torn) { syscall(SYS_writev, fd, v, n / 2); siglongjmp(g_crash, 1); }
  return syscall(SYS_writev, fd, v, n);
}
extern "C" int rename(const char* a, const char* b) noexcept { if (g_on && step("rename", a, false)) { errno = EACCES; return -1; } return int(syscall(SYS_rename, a, b)); }
extern "C" int unlink(const char* a) noexcept { if (g_on && step("unlink", a, false)) { errno = EACCES; return -1; } return int(syscall(SYS_unlink, a)); }
static int openStep(const char* p, int flags, int mode) { if (g_on && (flags & (O_CREAT | O_TRUNC)) && step("open", p, true)) { errno = ENOSPC; return -1; } return int(syscall(SYS_openat, AT_FDCWD, p, flags, mode)); }
extern "C" int open(const char* p, int flags, ...) { va_list a; va_start(a, flags); int m = flags & O_CREAT ? va_arg(a, int) : 0; va_end(a); return openStep(p, flags, m); }
extern "C" int open64(const char* p, int flags, ...) { va_list a; va_start(a, flags); int m = flags & O_CREAT ? va_arg(a, int) : 0; va_end(a); return openStep(p, flags | O_LARGEFILE, m); }
extern "C" FILE* fopen64(const char* p, const char* m) { REAL(fopen64); if (g_on && m[0] != 'r' && step("open", p, true)) { errno = ENOSPC; return nullptr; } return real(p, m); }
extern "C" FILE* fopen(const char* p, const char* m) { REAL(fopen); if (g_on && m[0] != 'r' && step("open", p, true)) { errno = ENOSPC; return nullptr; } return real(p, m); }
extern "C" size_t fread(void* b, size_t s, size_t n, FILE* f)
{
  REAL(fread);
  if (g_on && g_mode == FAILING && step("read", fdPath(fileno(f)), false)) { f->_flags |= 0x20; errno = EIO; return 0; }   // _IO_ERR_SEEN
  return real(b, s, n, f);
}

// ---------------------------------------------------------------- the directory
struct File { time_t mtime; bool regular; string content; };
static string slurp(const string& p) { string s; int fd = int(syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY)); if (fd < 0) return s; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, size_t(n)); close(fd); return s; }
static string gunzip(const string& z)      // every complete or synchronised part
{
  string out; size_t pos = 0;
  while (pos < z.size())
  {
    z_stream s; memset(&s, 0, sizeof s); inflateInit2(&s, 31);
    s.next_in = (Bytef*)z.data() + pos; s.avail_in = uInt(z.size() - pos); int r; char b[65536];
    do { s.next_out = (Bytef*)b; s.avail_out = sizeof b; r = inflate(&s, Z_NO_FLUSH); if (r < 0) { inflateEnd(&s); return out; } out.append(b, sizeof b - s.avail_out); }
    while (r != Z_STREAM_END && (s.avail_in || s.avail_out == 0));
    pos = z.size() - s.avail_in; inflateEnd(&s);
  }
  return out;
}
static std::map<string, File> look()
{
  std::map<string, File> r; DIR* d = opendir(g_dir.c_str());
  while (dirent* e = readdir(d))
  {
    string n = e->d_name; if (n == "." || n == "..") continue;
    struct stat st; lstat((g_dir + n).c_str(), &st); File f; f.mtime = st.st_mtime; f.regular = S_ISREG(st.st_mode);
    if (f.regular) { f.content = slurp(g_dir + n); if (f.content.compare(0, 2, "\x1f\x8b") == 0) f.content = gunzip(f.content); }
    r[n] = f;
  }
  closedir(d);
  return r;
}
static void touch(const string& p, time_t t) { timespec ts[2] = { { t, 0 }, { t, 0 } }; utimensat(AT_FDCWD, p.c_str(), ts, AT_SYMLINK_NOFOLLOW); }
//! What has been written just now has been written at the time of the controlled clock.
static void settle() { for (auto& f : look()) if (f.second.mtime > 1700000000) touch(g_dir + f.first, g_now.tv_sec); }
static void put(const string& n, const string& c, time_t t) { int fd = int(syscall(SYS_openat, AT_FDCWD, (g_dir + n).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644)); syscall(SYS_write, fd, c.data(), c.size()); close(fd); touch(g_dir + n, t); }
static void clean() { for (auto& f : look()) { if (syscall(SYS_unlink, (g_dir + f.first).c_str()) != 0) rmdir((g_dir + f.first).c_str()); } }
static std::vector<string> lines(const string& c)
{
  std::vector<string> r; size_t p = 0;
  while (p < c.size()) { size_t e = c.find('\n', p); bool whole = e != string::npos; string l = c.substr(p, whole ? e - p : e); p = whole ? e + 1 : c.size(); if (!l.empty() && l[0] != '-') r.push_back(whole ? l : l + "<torn>"); }
  return r;
}

// ---------------------------------------------------------------- the history
struct World
{
  bool rotate, zip, flush; int keep; string name; lg::LogOutputStream* o = nullptr;
  std::vector<std::pair<string, long>> written;    // line, day
  std::set<string> deleted, uncertain; int n = 0; bool fault = false; long day = 0; bool starting = false; std::map<string, File> before;
};
static const time_t T0 = 1000000000 / 86400 * 86400 + 40000;      // 2001-09-09, in the morning
static long today() { return long(g_now.tv_sec / 86400); }
static string current(const World& w, const std::map<string, File>& d) { auto it = d.find(w.name); return it == d.end() ? string() : it->second.content; }
static void check(World& w, bool active)
{
  settle();
  auto now = look();
  mc::transition();
  if (!w.o && !w.fault) for (int fd = 3; fd < 64; ++fd) MC_CHECK(!ours(fdPath(fd)), "open", "%s is still open after the end of the output", fdPath(fd).c_str() + g_dir.size());
  // files that went: only old archives may
  if (active && w.starting) { auto l = w.before.find(w.name); w.day = l == w.before.end() ? today() : long(l->second.mtime / 86400); }
  bool rotated = w.rotate && active && w.day != today();
  for (auto& f : w.before)
  {
    bool is_log = f.first == w.name, gone = !now.count(f.first);
    if (is_log)
    {
      // a log file moved away keeps its time and may be old already
      if (w.zip && rotated && w.keep >= 0 && f.second.mtime < (today() - w.keep) * 86400) { string all; for (auto& g : now) if (g.first != w.name) all += g.second.content; for (auto& p : w.written) if (p.second < today() && all.find(p.first + "\n") == string::npos) w.deleted.insert(p.first); }
      continue;
    }
    bool old = w.keep >= 0 && f.second.regular && f.first.compare(0, w.name.size(), w.name) == 0 && f.second.mtime < (today() - w.keep) * 86400;
    if (gone) { MC_CHECK(old && rotated, "deleted", "%s is gone (last written on day %ld, today is day %ld, files are kept for %d days)", f.first.c_str(), long(f.second.mtime / 86400), today(), w.keep); for (auto& l : lines(f.second.content)) w.deleted.insert(l); }
    else if (old && rotated && !w.fault) mc::fail("kept", "%s should be deleted (last written on day %ld, today is day %ld, files are kept for %d days)", f.first.c_str(), long(f.second.mtime / 86400), today(), w.keep);
    else if (f.second.regular && !w.fault) MC_CHECK(now[f.first].content == f.second.content, "archive-changed", "%s has changed", f.first.c_str());
  }
  if (w.o == nullptr || w.flush)
  {
    std::vector<string> got; string files;
    for (auto& f : now) if (f.first != w.name && f.first.compare(0, w.name.size(), w.name) == 0) { auto l = lines(f.second.content); files += f.first + ": "; for (auto& s : l) files += s + " "; got.insert(got.end(), l.begin(), l.end()); }
    auto cur = lines(current(w, now)); files += w.name + ": "; for (auto& s : cur) files += s + " ";
    got.insert(got.end(), cur.begin(), cur.end());
    std::vector<string> want; for (auto& p : w.written) if (!w.deleted.count(p.first)) want.push_back(p.first);
    if (!w.fault) MC_CHECK(got == want, "lost", "the files hold %s", files.c_str());
    else
      for (auto& l : want) MC_CHECK(w.uncertain.count(l) || std::find(got.begin(), got.end(), l) != got.end(), "lost", "%s is in no file: %s", l.c_str(), files.c_str());
    if (w.rotate && !w.fault && w.o)
      for (auto& p : w.written)
      {
        bool in = std::find(cur.begin(), cur.end(), p.first) != cur.end();
        MC_CHECK(in || p.second != today() || !active, "early", "%s of today has been archived", p.first.c_str());
        MC_CHECK(!in || p.second == today() || !rotated, "late", "%s of an earlier day is still in the log file", p.first.c_str());
      }
    if (!w.rotate) MC_CHECK(cur.size() == want.size(), "archived", "lines are archived although no rotation is configured: %s", files.c_str());
  }
  if (active) { w.day = today(); w.starting = false; }
  w.before = now;
}
//! Runs a step of the program; a crash ends it there. Returns false after a crash.
static bool guarded(World& w, const std::function<void()>& f)
{
  if (sigsetjmp(g_crash, 0) == 0)
  {
    g_on = g_mode != NONE; int left = g_left;
    f();
    g_on = false; if (g_left != left) w.fault = true;
    return true;
  }
  g_on = false; w.fault = true; w.o = nullptr;
  for (int fd = 3; fd < 256; ++fd) if (ours(fdPath(fd))) close(fd);
  return false;
}
static void startUp(World& w, const string& path)
{
  w.starting = true;
  string p = w.keep >= 0 ? "/Keeping" : "/L06";      // values cannot be removed again
  icl_core::config::setValue(p + "/FileName", path);
  icl_core::config::setValue(p + "/Rotate", string(w.rotate ? "yes" : "no"));
  icl_core::config::setValue(p + "/Zip", string(w.zip ? "yes" : "no"));
  icl_core::config::setValue(p + "/Flush", string(w.flush ? "yes" : "no"));
  icl_core::config::setValue(p + "/Format", string("~E"));
  if (w.keep >= 0) icl_core::config::setValue(p + "/DeleteOlderThan", string(std::to_string(w.keep)));
  w.o = lg::FileLogOutput::create("file", p, lg::eLL_TRACE);
}
static void history(int ops, int mode, int kind)
{
  g_dir = mc::scratch() + "/logs/"; mkdir(g_dir.c_str(), 0755); clean();
  std::ostringstream sink; struct Err { std::streambuf* b; ~Err() { std::cerr.rdbuf(b); g_fake = g_on = false; } } err = { std::cerr.rdbuf(sink.rdbuf()) };
  g_fake = true; g_now.tv_sec = T0; g_now.tv_nsec = 0; g_mode = mode; g_left = 1; g_on = false;
  World w; w.rotate = kind != 3; w.name = "app.log";
  w.zip = kind == 3 ? mc::flip("zip") : kind == 1; w.flush = mode != NONE || mc::flip("flush");
  w.keep = kind == 2 || (kind == 1 && mode == NONE) ? mc::choose(4, "days to keep") - 1 : -1;
  if (mode != NONE && w.zip && mode == CRASH) mc::prune();
  bool relative = kind == 2 && mc::flip("relative file name");
  g_log = g_dir + w.name;
  if (kind == 2)
  {
    put("app.log.2001-09-01.gz", "", T0 - 8 * 86400); put("app.log.2001-09-08", "", T0 - 1 * 86400); put("other.log", "x", T0 - 90 * 86400); put("my-app.log.1", "x", T0 - 90 * 86400);
    mkdir((g_dir + "app.log.d").c_str(), 0755); touch(g_dir + "app.log.d", T0 - 90 * 86400); (void)!symlink("nowhere", (g_dir + "broken").c_str());
  }
  w.before = look();
  if (relative) (void)!chdir(g_dir.c_str());
  struct Back { bool on; ~Back() { if (on) (void)!chdir("/"); } } back = { relative };
  string path = relative ? w.name : g_log;
  if (guarded(w, [&] { startUp(w, path); })) check(w, true); else check(w, true);
  for (int i = 0; i < ops; ++i)
  {
    // the days also change while the program is not running
    int op = mc::choose(i + 1 < ops ? 4 : 2, "operation");
    if (op == 0 || op == 3)
    {
      if (!w.o) { if (!guarded(w, [&] { startUp(w, path); })) { check(w, true); continue; } check(w, true); }
      string l = mc::format("line%d", w.n++); if (op == 3) l += string(9000, 'x');
      w.written.push_back({ l, today() });
      mc::trace("day %ld: %s is written", today() - T0 / 86400, l.substr(0, 12).c_str());
      bool ok = guarded(w, [&] { w.o->pushImpl(l + "\n"); });
      if (!ok) w.uncertain.insert(l);
      check(w, true);
    }
    else if (op == 1)
    {
      if (w.o) { mc::trace("day %ld: the program is stopped", today() - T0 / 86400); if (guarded(w, [&] { lg::LogOutputStream* o = w.o; o->shutdown(); delete o; w.o = nullptr; })) check(w, false); else check(w, true); }
      else { mc::trace("day %ld: the program is started", today() - T0 / 86400); guarded(w, [&] { startUp(w, path); }); check(w, true); }
    }
    else { int d = mc::flip("days") ? 3 : 1; g_now.tv_sec += d * 86400; mc::trace("%d days later", d); }
    if (mode == NONE) { uint64_t h = mc::mix(kind * 64 + w.keep * 8 + w.flush * 4 + w.zip * 2 + relative, today() - T0 / 86400); mc::state(mc::mix(h, mc::hashStr(current(w, w.before)))); }
  }
  if (w.o) { lg::LogOutputStream* o = w.o; w.o = nullptr; g_on = false; o->shutdown(); delete o; check(w, false); }
  else check(w, false);
  mc::outcome(mc::format("%d files, %d deleted, fault %d", int(w.before.size()), int(w.deleted.size()), int(w.fault)));
  clean();
}
//! Variables in the file name are replaced.
static void names()
{
  g_dir = mc::scratch() + "/logs/"; mkdir(g_dir.c_str(), 0755); clean();
  std::ostringstream sink; struct Err { std::streambuf* b; ~Err() { std::cerr.rdbuf(b); g_fake = false; unsetenv("L06DIR"); } } err = { std::cerr.rdbuf(sink.rdbuf()) };
  g_fake = true; g_now.tv_sec = T0; g_mode = NONE;
  setenv("L06DIR", (mc::scratch() + "/logs").c_str(), 1); setenv("L06NAME", "named", 1);
  static const struct { const char* given; const char* want; } N[] = { { "$L06DIR/a.log", "a.log" }, { "${L06DIR}/b.log", "b.log" }, { "$L06DIR/$L06NAME.log", "named.log" }, { "$L06DIR/c.d/../c.log", "" } };
  auto& n = N[mc::choose(4, "file name")];
  World w; w.rotate = mc::flip("rotate"); w.zip = false; w.flush = true; w.keep = -1; w.name = n.want;
  startUp(w, n.given); w.o->pushImpl("text\n"); w.o->shutdown(); delete w.o;
  auto d = look(); mc::transition();
  if (*n.want) { MC_CHECK(d.size() == 1 && d.count(n.want) && lines(d[n.want].content) == std::vector<string>{ "text" }, "name", "%s: %zu files, first %s", n.given, d.size(), d.empty() ? "" : d.begin()->first.c_str()); }
  else MC_CHECK(d.empty(), "name", "a file in a directory that does not exist");
  clean();
}
int main(int argc, char** argv)
{
  setenv("TZ", "UTC", 1);
  bool th = false; for (int i = 1; i < argc; ++i) th |= string(argv[i]) == "--thorough";
  lg::LoggingManager::instance().initialize();
  return mc::run(argc, argv, {
    { "rotation", [th] { history(th ? 8 : 7, NONE, 0); } }, { "rotation-zipped", [th] { history(th ? 7 : 5, NONE, 1); } }, { "old-files", [th] { history(th ? 7 : 5, NONE, 2); } },
    { "no-rotation", [th] { history(th ? 7 : 5, NONE, 3); } },
    { "failing", [th] { history(th ? 6 : 5, FAILING, 0); } }, { "failing-zipped", [th] { history(th ? 6 : 5, FAILING, 1); } }, { "failing-old-files", [th] { history(th ? 5 : 4, FAILING, 2); } },
    { "crash", [th] { history(th ? 6 : 5, CRASH, 0); } }, { "crash-old-files", [th] { history(th ? 5 : 4, CRASH, 2); } },
    { "names", names } });
}
