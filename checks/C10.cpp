// zipFile: contents x faults. Faults: every failing read, every full-disk position, failing close,
// missing/unreadable source, uncreatable target, short reads and writes.
#include "mc.h"
#include <icl_core/os_fs.h>
#include <zlib.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <signal.h>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
using std::string;

static bool g_on; static ino_t g_src; static string g_dstPath;
static int g_failRead = -1, g_reads, g_failClose = -1, g_closes, g_shortRead, g_shortWrite; static bool g_hit; static long g_writeLimit = -1; static int g_failWrite = -1, g_writes;
static bool isSrc(int fd) { struct stat s; return g_on && fstat(fd, &s) == 0 && s.st_ino == g_src && S_ISREG(s.st_mode); }
static bool isDst(int fd) { if (!g_on) return false; struct stat s, t; return fstat(fd, &s) == 0 && stat(g_dstPath.c_str(), &t) == 0 && s.st_ino == t.st_ino && s.st_dev == t.st_dev; }
extern "C" ssize_t read(int fd, void* b, size_t n)
{
  if (isSrc(fd))
  {
    if (g_reads++ == g_failRead) { g_hit = true; errno = EIO; return -1; }
    if (g_shortRead && n > size_t(g_shortRead)) n = g_shortRead;
  }
  return syscall(SYS_read, fd, b, n);
}
extern "C" ssize_t write(int fd, const void* b, size_t n)
{
  if (g_failWrite >= 0 && isDst(fd) && g_writes++ == g_failWrite) { g_hit = true; errno = ENOSPC; return -1; }
  if (g_shortWrite && n > size_t(g_shortWrite) && isDst(fd)) n = g_shortWrite;
  return syscall(SYS_write, fd, b, n);
}
extern "C" int close(int fd)
{
  if (g_failClose >= 0 && isDst(fd) && g_closes++ == g_failClose) { g_hit = true; syscall(SYS_close, fd); errno = EIO; return -1; }
  return int(syscall(SYS_close, fd));
}
extern "C" size_t fread(void* b, size_t s, size_t n, FILE* f)
{
  static size_t (*real)(void*, size_t, size_t, FILE*) = (size_t (*)(void*, size_t, size_t, FILE*))dlsym(RTLD_NEXT, "fread");
  if (isSrc(fileno(f)) && g_reads++ == g_failRead) { g_hit = true; f->_flags |= 0x20; errno = EIO; return 0; }   // _IO_ERR_SEEN
  return real(b, s, n, f);
}
// full disk at byte g_writeLimit of the target
struct Faults { ~Faults() { g_on = false; g_failRead = g_failClose = -1; g_failWrite = -1; g_writes = g_reads = g_closes = g_shortRead = g_shortWrite = 0; g_writeLimit = -1; } };

static void put(const string& p, const string& c) { FILE* f = fopen(p.c_str(), "wb"); fwrite(c.data(), 1, c.size(), f); fclose(f); }
static bool get(const string& p, string& c)
{
  c.clear(); int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return false; char b[65536]; ssize_t n;
  while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) c.append(b, size_t(n)); syscall(SYS_close, fd); return n == 0;
}
static bool gunzip(const string& z, string& out)
{
  out.clear(); size_t pos = 0; if (z.empty()) return false;
  while (pos < z.size())
  {
    z_stream s; memset(&s, 0, sizeof s); if (inflateInit2(&s, 31) != Z_OK) return false;
    s.next_in = (Bytef*)z.data() + pos; s.avail_in = uInt(z.size() - pos); int r; char b[65536];
    do { s.next_out = (Bytef*)b; s.avail_out = sizeof b; r = inflate(&s, Z_NO_FLUSH); if (r != Z_OK && r != Z_STREAM_END) { inflateEnd(&s); return false; } out.append(b, sizeof b - s.avail_out); }
    while (r != Z_STREAM_END && (s.avail_in || s.avail_out == 0));
    pos = z.size() - s.avail_in; inflateEnd(&s); if (r != Z_STREAM_END) return false;
  }
  return true;
}
static string noise(size_t n) { string s(n, 0); uint32_t x = 12345; for (auto& c : s) { x = x * 1664525u + 1013904223u; c = char(x >> 24); } return s; }
static string deflated(const string& s) { string t = mc::scratch() + "/tmp.gz"; gzFile f = gzopen(t.c_str(), "wb"); gzwrite(f, s.data(), unsigned(s.size())); gzclose(f); string z; get(t, z); unlink(t.c_str()); return z; }
static string content(bool small)
{
  static const size_t LEN[] = { 0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000, 70000, 300000 };
  int kind = mc::choose(small ? 3 : 5, "content");
  if (kind == 3) { static const char* const T[] = { "\x1f\x8b", "\x1f\x8b\x08", "\x1f\x8bzzzzzzzzzzzzzzzzzzzz", "a\0b", "\x1f" }; int i = mc::choose(5, "text"); return i == 3 ? string("a\0b", 3) : string(T[i]); }
  if (kind == 4) { string z = deflated(noise(300)); int i = mc::choose(4, "archive"); return i == 0 ? z : i == 1 ? z.substr(0, z.size() - 9) : i == 2 ? z + z : z + "tail"; }
  size_t n = small ? LEN[mc::choose(mc::thorough() ? 12 : 9, "length")] : mc::pick(LEN, "length");
  if (kind == 0) return noise(n);
  if (kind == 1) return string(n, 'a');
  string s; while (s.size() < n) s += "line " + std::to_string(s.size()) + "\n"; s.resize(n); return s;
}
static int openFiles() { int n = 0; for (int i = 0; i < 256; ++i) n += syscall(SYS_fcntl, i, F_GETFD) >= 0; return n; }
static void callAndCheck(const string& src, const char* ext, const string& orig, bool haveSrc, bool mustSucceed, bool mustFail)
{
  string dst = src + ext + ".gz"; g_dstPath = dst; struct stat st; g_src = stat(src.c_str(), &st) == 0 ? st.st_ino : 0;
  struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, SIG_IGN);
  if (g_writeLimit >= 0) { lim = old; lim.rlim_cur = rlim_t(g_writeLimit); setrlimit(RLIMIT_FSIZE, &lim); }
  g_hit = false; g_on = true;
  std::stringbuf sink; std::streambuf* err = std::cerr.rdbuf(&sink);
  int files = openFiles();
  bool ok = icl_core::os::zipFile(src.c_str(), ext);
  int left = openFiles() - files; g_on = false; std::cerr.rdbuf(err);
  if (g_writeLimit >= 0) setrlimit(RLIMIT_FSIZE, &old);
  mc::transition();
  string now, z, back;
  MC_CHECK(left == 0, "left-open", "%d files are still open afterwards%s", left, g_hit ? " after an injected fault" : "");
  if (haveSrc) { MC_CHECK(get(src, now) && now == orig, "original-changed", "the original has %zu bytes after compressing, had %zu", now.size(), orig.size()); }
  if (ok)
  {
    MC_CHECK(haveSrc, "false-success", "success is reported although the original cannot be read");
    MC_CHECK(get(dst, z) && gunzip(z, back), "unreadable", "success is reported but the compressed file (%zu bytes) is not a complete gzip file (original %zu bytes)%s", z.size(), orig.size(), g_hit ? " after an injected fault" : "");
    MC_CHECK(back == orig, "different", "success is reported but the compressed file yields %zu bytes which differ from the original %zu%s", back.size(), orig.size(), g_hit ? " after an injected fault" : "");
    MC_CHECK(!mustFail, "false-success", "success is reported although compressing cannot have worked");
  }
  else MC_CHECK(!mustSucceed, "false-failure", "failure is reported although nothing went wrong (original %zu bytes)", orig.size());
  mc::outcome(mc::format("%s hit=%d", ok ? "success" : "failure", int(g_hit)));
  unlink(dst.c_str());
}
static string source(const string& c) { string g = mc::scratch() + "/file.log.gz"; unlink(g.c_str()); rmdir(g.c_str()); string p = mc::scratch() + "/file.log"; put(p, c); return p; }
static const char* const EXT[] = { "", ".2024-01-01", "_x" };
static void plain()
{
  Faults guard; string c = content(false); string p = source(c); const char* ext = mc::pick(EXT, "extension");
  int old = mc::choose(3, "old archive"); if (old) put(p + ext + ".gz", old == 1 ? string("rubbish") : noise(400000));
  callAndCheck(p, ext, c, true, true, false); mc::state(mc::hashStr(c));
}
static void shortIo()
{
  Faults guard; string c = content(true); string p = source(c); g_shortRead = mc::choose(3, "short reads") * 1000 + 1; g_shortWrite = mc::choose(3, "short writes") * 1000 + 1;
  callAndCheck(p, "", c, true, true, false); mc::state(mc::hashStr(c));
}
static void failingRead()
{
  Faults guard; string c = content(true); string p = source(c); g_shortRead = mc::flip("short reads") ? 1500 : 0; g_failRead = mc::choose(mc::thorough() ? 16 : 8, "failing read");
  callAndCheck(p, "", c, true, false, false); mc::state(mc::hashStr(c, g_failRead));
}
static void fullDisk()
{
  Faults guard; string c = content(true); string p = source(c); string z = deflated(c); long n = long(z.size());
  std::vector<long> at; for (long i = 0; i <= n + 1; ++i) if (i < 64 || i > n - 40 || i % 4096 < 2 || i % 4096 == 4095 || (mc::thorough() && i % 64 == 0)) at.push_back(i);
  g_writeLimit = at[mc::choose(int(at.size()), "disk full at")];
  callAndCheck(p, "", c, true, false, false); mc::state(mc::hashStr(c, uint64_t(g_writeLimit)));
}
//! One write fails, e.g. because the disk was full for a moment; the others succeed.
static void failingWrite()
{
  static const size_t LEN[] = { 0, 1, 5000, 16384, 40000, 70000, 300000 };
  Faults guard; size_t n = mc::pick(LEN, "length"); string c = noise(n);
  if (mc::flip("compressible")) { c.clear(); while (c.size() < n) c += "line " + std::to_string(c.size() * 7919) + "\n"; c.resize(n); }
  string p = source(c); g_shortWrite = mc::choose(3, "short writes") * 6000; g_failWrite = mc::choose(mc::thorough() ? 60 : 24, "failing write");
  callAndCheck(p, "", c, true, false, false); mc::state(mc::hashStr(c, uint64_t(g_failWrite)));
}
static void failingClose()
{
  Faults guard; string c = content(true); string p = source(c); g_failClose = mc::choose(2, "failing close");
  callAndCheck(p, "", c, true, false, false); mc::state(mc::hashStr(c));
}
static void badPaths()
{
  Faults guard; int k = mc::choose(7, "fault"); string base = mc::scratch() + "/", c = content(true), p = source(c);
  switch (k)
  {
    case 0: callAndCheck(base + "missing.log", "", "", false, false, true); break;                    // no such original
    case 1: callAndCheck(base + "nodir/file.log", "", "", false, false, true); break;                 // no such directory
    case 2: { mkdir((base + "dir").c_str(), 0755); callAndCheck(base + "dir", "", "", false, false, true); rmdir((base + "dir").c_str()); break; }   // original is a directory
    case 3: { string d = p + ".gz"; mkdir(d.c_str(), 0755); callAndCheck(p, "", c, true, false, true); rmdir(d.c_str()); break; }   // target is a directory
    case 4: { string d = p + ".gz"; symlink("/dev/full", d.c_str()); callAndCheck(p, "", c, true, false, true); unlink(d.c_str()); break; }
    case 5: callAndCheck(p, "/sub/x", c, true, false, true); break;                                   // target directory missing
    default: { string d = p + ".gz"; symlink((base + "nowhere/at/all").c_str(), d.c_str()); callAndCheck(p, "", c, true, false, true); unlink(d.c_str()); break; }
  }
  mc::state(mc::hashStr(c, uint64_t(k)));
}
int main(int argc, char** argv)
{
  return mc::run(argc, argv, { {"plain", plain}, {"short-io", shortIo}, {"failing-read", failingRead}, {"full-disk", fullDisk}, {"failing-write", failingWrite}, {"failing-close", failingClose}, {"bad-paths", badPaths} });
}
