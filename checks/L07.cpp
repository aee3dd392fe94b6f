// L07: UDP and database log records carry the message unaltered.
#include "mc.h"
#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <vector>
#include <cstring>
#include <boost/lexical_cast.hpp>
#include <dirent.h>
#include <dlfcn.h>
#include <sqlite3.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include "icl_core/BaseTypes.h"
#include "icl_core/TimeStamp.h"
#include "icl_core_config/Config.h"
#include "icl_core_logging/Logging.h"
#include "icl_core_logging/LogOutputStream.h"
#include "icl_core_logging/LoggingManager.h"
#include "icl_core_logging/SQLiteLogDb.h"
#include "icl_core_logging/SQLiteLogOutput.h"
#include "icl_core_logging/UdpLogOutput.h"
namespace lg = icl_core::logging;
using std::string;

// ---------------------------------------------------------------- the clock, the network, the disk
static bool g_fake = false; static timespec g_now;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { timespec t = g_now; if (!g_fake) syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
extern "C" int clock_gettime(clockid_t c, timespec* t) noexcept { if (g_fake && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { *t = g_now; return 0; } return int(syscall(SYS_clock_gettime, c, t)); }
static std::vector<string> g_sent; static bool g_net = false; static int g_sends, g_fail_send = -1;
static bool isSocket(int fd) { struct stat st; return g_net && fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode); }
static ssize_t sent(const string& s) { if (g_sends++ == g_fail_send) { errno = ECONNREFUSED; return -1; } g_sent.push_back(s); return ssize_t(s.size()); }
extern "C" ssize_t write(int fd, const void* b, size_t n) { if (isSocket(fd)) return sent(string((const char*)b, n)); return syscall(SYS_write, fd, b, n); }
extern "C" ssize_t send(int fd, const void* b, size_t n, int f) { if (isSocket(fd)) return sent(string((const char*)b, n)); return syscall(SYS_sendto, fd, b, n, f, nullptr, 0); }
extern "C" ssize_t sendto(int fd, const void* b, size_t n, int f, const struct sockaddr* a, socklen_t l) { if (isSocket(fd)) return sent(string((const char*)b, n)); return syscall(SYS_sendto, fd, b, n, f, a, l); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) { if (isSocket(fd)) { string s; for (int i = 0; i < n; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len); return sent(s); } return syscall(SYS_writev, fd, v, n); }
extern "C" int fsync(int) { return 0; }
extern "C" int fdatasync(int) { return 0; }
static int g_steps; static unsigned g_fail_steps; static bool g_db = false; static string g_db_file;
extern "C" int sqlite3_step(sqlite3_stmt* s)
{
  static auto real = (int (*)(sqlite3_stmt*))dlsym(RTLD_NEXT, "sqlite3_step");
  if (g_db) { const char* q = sqlite3_sql(s); if (q && !strncmp(q, "INSERT", 6) && (g_fail_steps >> g_steps++ & 1))
  {
    // another process has locked the database just now
    sqlite3* other; sqlite3_open(g_db_file.c_str(), &other);
    if (sqlite3_exec(other, "BEGIN EXCLUSIVE", 0, 0, 0) != SQLITE_OK) mc::fail("db-open", "the database is locked by a statement that was never reset: %s", sqlite3_errmsg(other));
    int r = real(s);
    sqlite3_exec(other, "ROLLBACK", 0, 0, 0); sqlite3_close(other);
    return r;
  } }
  return real(s);
}

// ---------------------------------------------------------------- messages
struct Message { lg::LogLevel level; string stream, file, cls, object, function, text; int line; };
static const string LONG(900, 'l'), FULL = string(500, '\'') + string(500, '\\');
static const std::vector<string>& texts()
{
  static const std::vector<string> T = { "plain", "", "'", "\\", "a'b", "end\\", "\\'", "','", "two\nlines", "\xc3\xa4 \xff", "''", "\"%s\"", "); DROP TABLE log_entries; --", LONG, FULL };
  return T;
}
static const lg::LogLevel LEVELS[] = { lg::eLL_INFO, lg::eLL_TRACE, lg::eLL_DEBUG, lg::eLL_WARNING, lg::eLL_ERROR };
static Message base(int i) { Message m; m.level = lg::eLL_INFO; m.stream = "Stream"; m.file = "file.cpp"; m.cls = "Class"; m.object = "object"; m.function = "function"; m.text = mc::format("message %d", i); m.line = 10 + i; return m; }
static string* field(Message& m, int f) { string* p[] = { &m.text, &m.object, &m.cls, &m.file, &m.function, &m.stream }; return p[f]; }
static string shorten(const string& s, size_t n) { return s.substr(0, n); }
//! A message with up to two unusual fields.
static Message unusual(int i)
{
  Message m = base(i);
  int a = mc::choose(6, "first field"), ta = mc::choose(int(texts().size()), "its text"), b = mc::choose(6, "second field");
  if (b == a) { *field(m, a) = texts()[ta]; m.level = mc::pick(LEVELS, "level"); m.line = mc::flip("line") ? 0x7fffffff : 0; }
  else { if (b < a) mc::prune(); *field(m, a) = texts()[ta]; *field(m, b) = texts()[mc::choose(int(texts().size()), "its text")]; }
  // the bounds of the message record (see L05)
  m.stream = shorten(m.stream, 200); m.file = shorten(m.file, 500); m.cls = shorten(m.cls, 200); m.object = shorten(m.object, 200); m.function = shorten(m.function, 200);
  return m;
}
static void push(lg::LogOutputStream* o, const Message& m) { o->push(m.level, m.stream.c_str(), m.file.c_str(), m.line, m.cls.c_str(), m.object.c_str(), m.function.c_str(), m.text.c_str()); }
struct Setup
{
  std::ostringstream sink; std::streambuf* err;
  Setup() { err = std::cerr.rdbuf(sink.rdbuf()); g_fake = true; g_now = { 1000000000, 123456000 }; g_sent.clear(); g_sends = g_steps = 0; g_fail_send = -1; g_fail_steps = 0; }
  ~Setup() { std::cerr.rdbuf(err); g_fake = g_net = g_db = false; }
};

// ---------------------------------------------------------------- UDP
//! What the logging server (uls) does with a record.
static bool parse(const string& d, std::vector<string>& f)
{
  static sqlite3* db = nullptr;
  if (!db)
  {
    sqlite3_open(":memory:", &db);
    sqlite3_exec(db, "CREATE TABLE log_entries (system_name TEXT,timestamp TEXT, timestamp_ns INTEGER, log_level TEXT, log_stream TEXT, file TEXT, line INTEGER, class TEXT, object TEXT, function TEXT, message TEXT)", 0, 0, 0);
  }
  string sql = "INSERT INTO log_entries VALUES (" + string(d.c_str()) + ")"; const char* tail = nullptr; sqlite3_stmt* q = nullptr;
  bool ok = sqlite3_prepare_v2(db, sql.c_str(), -1, &q, &tail) == SQLITE_OK && q && tail && !*tail && sqlite3_step(q) == SQLITE_DONE;
  sqlite3_finalize(q); f.clear();
  if (!ok) { sqlite3_exec(db, "DELETE FROM log_entries", 0, 0, 0); return false; }
  sqlite3_prepare_v2(db, "SELECT * FROM log_entries", -1, &q, nullptr); int n = 0;
  while (sqlite3_step(q) == SQLITE_ROW) { ++n; f.clear(); for (int i = 0; i < sqlite3_column_count(q); ++i) { const void* p = sqlite3_column_blob(q, i); f.push_back(p ? string((const char*)p, size_t(sqlite3_column_bytes(q, i))) : ""); } }
  sqlite3_finalize(q); sqlite3_exec(db, "DELETE FROM log_entries", 0, 0, 0);
  return n == 1;
}
static void record(const string& d, const Message& m, const string& system)
{
  std::vector<string> f;
  MC_CHECK(parse(d, f), "udp-quoting", "the record %s does not make one row of the logging server's database", mc::quote(d).c_str());
  icl_core::TimeStamp t(g_now.tv_sec, g_now.tv_nsec);
  std::vector<string> want = { system, t.formatIso8601(), std::to_string(g_now.tv_nsec), lg::logLevelDescription(m.level), m.stream, m.file, std::to_string(m.line), m.cls, m.object, m.function, m.text };
  MC_CHECK(f.size() == want.size(), "udp-fields", "the record %s has %zu fields, expected %zu", mc::quote(d).c_str(), f.size(), want.size());
  static const char* const N[] = { "system", "time", "nanoseconds", "level", "stream", "file", "line", "class", "object", "function", "message" };
  for (size_t i = 0; i < want.size(); ++i) MC_CHECK(f[i] == want[i], "udp-value", "the %s is %s, expected %s", N[i], mc::quote(f[i]).c_str(), mc::quote(want[i]).c_str());
}
static void udp(int messages, bool faults)
{
  Setup s; g_net = true;
  string system = messages == 1 && !faults ? mc::pick(std::vector<string>{ "system", "a'b\\", "" }, "system name") : "system";
  icl_core::config::setValue("/L07/Host", string("127.0.0.1")); icl_core::config::setValue("/L07/Port", string("9")); icl_core::config::setValue("/L07/SystemName", system);
  lg::LogOutputStream* o = lg::UdpLogOutput::create("udp", "/L07", lg::eLL_TRACE);
  if (faults) g_fail_send = mc::choose(messages, "failing datagram");
  std::vector<Message> m;
  for (int i = 0; i < messages; ++i) { if (messages == 1) m.push_back(unusual(i)); else { Message x = base(i); x.text = mc::pick(texts(), "text"); x.object = mc::flip("object") ? "it's" : ""; m.push_back(x); } push(o, m.back()); }
  o->start(); o->shutdown(); delete o;
  if (g_fail_send >= 0) m.erase(m.begin() + g_fail_send);
  mc::transition(messages);
  MC_CHECK(g_sent.size() == m.size(), "udp-count", "%zu records were sent for %zu messages", g_sent.size(), m.size());
  for (size_t i = 0; i < m.size(); ++i) record(g_sent[i], m[i], system);
  for (auto& d : g_sent) mc::state(mc::hashStr(d));
}

// ---------------------------------------------------------------- the database
struct Row { string v[10]; };
static std::vector<Row> rows(const string& file)
{
  std::vector<Row> r; sqlite3* db = nullptr; sqlite3_stmt* q = nullptr;
  if (sqlite3_open_v2(file.c_str(), &db, SQLITE_OPEN_READONLY, nullptr) == SQLITE_OK &&
      sqlite3_prepare_v2(db, "SELECT app_id, timestamp, log_stream, log_level, filename, line, class_name, object_name, function_name, message FROM log_entries ORDER BY seq", -1, &q, nullptr) == SQLITE_OK)
    while (sqlite3_step(q) == SQLITE_ROW) { Row w; for (int i = 0; i < 10; ++i) { const void* p = sqlite3_column_blob(q, i); w.v[i] = p ? string((const char*)p, size_t(sqlite3_column_bytes(q, i))) : sqlite3_column_type(q, i) == SQLITE_TEXT ? "" : "<null>"; } r.push_back(w); }
  sqlite3_finalize(q); sqlite3_close(db);
  return r;
}
static Row expected(const Message& m, const string& time, const string& app)
{
  Row w; const string v[] = { app, time, m.stream, lg::logLevelDescription(m.level), m.file, std::to_string(m.line), m.cls, m.object, m.function, m.text };
  for (int i = 0; i < 10; ++i) w.v[i] = v[i];
  return w;
}
static void same(const std::vector<Row>& got, const std::vector<Row>& want, const string& where)
{
  static const char* const N[] = { "application", "time", "stream", "level", "file", "line", "class", "object", "function", "message" };
  MC_CHECK(got.size() == want.size(), "db-count", "%s has %zu rows, expected %zu", where.c_str(), got.size(), want.size());
  for (size_t i = 0; i < want.size(); ++i) for (int k = 0; k < 10; ++k) MC_CHECK(got[i].v[k] == want[i].v[k], "db-value", "%s, row %zu: the %s is %s, expected %s", where.c_str(), i, N[k], mc::quote(got[i].v[k]).c_str(), mc::quote(want[i].v[k]).c_str());
}
static std::vector<string> files(const string& dir) { std::vector<string> r; DIR* d = opendir(dir.c_str()); while (dirent* e = readdir(d)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(d); std::sort(r.begin(), r.end()); return r; }
static string dbDir() { string d = mc::scratch() + "/db"; mkdir(d.c_str(), 0755); for (auto& f : files(d)) if (::unlink((d + "/" + f).c_str()) != 0) rmdir((d + "/" + f).c_str()); return d; }
//! Messages through the output.
static void database(int messages, bool faults)
{
  Setup s; string d = dbDir(), f = d + "/log.db"; g_db = true;
  icl_core::config::setValue("/L07db/FileName", f);
  lg::LogOutputStream* o = lg::SQLiteLogOutput::create("db", "/L07db", lg::eLL_TRACE);
  g_db_file = f;
  if (faults) g_fail_steps = 1 + unsigned(mc::choose((1 << messages) - 1, "rows that meet a locked database"));
  std::vector<Row> want; int restart = messages > 1 ? mc::choose(messages, "restart") : 0;
  for (int i = 0; i < messages; ++i)
  {
    if (restart && i == restart) { o->start(); o->shutdown(); if (mc::flip("new object")) { delete o; o = lg::SQLiteLogOutput::create("db", "/L07db", lg::eLL_TRACE); } }
    Message m = messages == 1 ? unusual(i) : base(i); if (messages > 1) { m.text = mc::pick(texts(), "text"); m.object = mc::flip("object") ? "it's" : ""; }
    push(o, m);
    if (!(g_fail_steps >> i & 1)) want.push_back(expected(m, icl_core::TimeStamp(g_now.tv_sec, g_now.tv_nsec).formatIso8601(), ""));
  }
  o->start(); o->shutdown(); delete o; g_db = false;
  mc::transition(messages);
  same(rows(f), want, "log.db");
  for (auto& w : want) for (auto& v : w.v) mc::state(mc::hashStr(v));
}
//! Lines, day changes and restarts with the rotating database.
static void rotation(int ops)
{
  Setup s; string d = dbDir(), f = d + "/log.db";
  bool rotate = mc::flip("rotate"); std::vector<std::vector<Row>> want(1); int n = 0; long day = g_now.tv_sec / 86400;
  lg::SQLiteLogDb* db = new lg::SQLiteLogDb(f, rotate); db->openDatabase();
  for (int i = 0; i < ops; ++i)
    switch (mc::choose(4, "operation"))
    {
    case 0:
    {
      Message m = base(n++); string t = std::to_string(g_now.tv_sec);
      mc::trace("day %ld: message %d", g_now.tv_sec / 86400, n - 1);
      db->writeLogLine("app", t.c_str(), m.stream.c_str(), lg::logLevelDescription(m.level), m.file.c_str(), m.line, m.cls.c_str(), m.object.c_str(), m.function.c_str(), m.text.c_str());
      if (rotate && day != g_now.tv_sec / 86400) want.push_back({});
      day = g_now.tv_sec / 86400; want.back().push_back(expected(m, t, "app"));
      break;
    }
    case 1: g_now.tv_sec += 86400; mc::trace("a day later"); break;
    case 2: mc::trace("restart"); delete db; db = new lg::SQLiteLogDb(f, rotate); db->openDatabase(); day = g_now.tv_sec / 86400; break;
    case 3: mc::trace("reopened"); db->closeDatabase(); db->openDatabase(); break;
    }
  delete db;
  mc::transition(ops);
  std::vector<string> names = files(d);
  if (names.size() > 1 && names[0] == "log.db") std::rotate(names.begin(), names.begin() + 1, names.end());      // the archives by date, then the current one
  MC_CHECK(names.size() == want.size() && names.back() == "log.db", "db-files", "%zu database files, expected %zu", names.size(), want.size());
  for (size_t i = 0; i < names.size(); ++i) same(rows(d + "/" + names[i]), want[i], names[i]);
  mc::outcome(mc::format("%zu files", names.size()));
}
//! The database cannot be opened or is none: nothing else happens.
static void unusable()
{
  Setup s; string d = dbDir(), f = d + "/log.db"; int kind = mc::choose(5, "kind");
  if (kind == 0) f = d + "/missing/log.db";
  if (kind == 1) f = "";
  if (kind == 2) mkdir(f.c_str(), 0755);
  if (kind == 3) { FILE* x = fopen(f.c_str(), "w"); for (int i = 0; i < 200; ++i) fputs("this is no database ", x); fclose(x); }
  if (kind == 4) { sqlite3* db; sqlite3_open(f.c_str(), &db); sqlite3_exec(db, "CREATE TABLE log_entries (other TEXT)", 0, 0, 0); sqlite3_close(db); }
  bool rotate = mc::flip("rotate");
  { lg::SQLiteLogDb db(f, rotate); db.openDatabase(); for (int i = 0; i < 2; ++i) { db.writeLogLine("a", "b", "c", "d", "e", 1, "f", "g", "h", "i"); if (mc::flip("a day later")) g_now.tv_sec += 86400; } db.closeDatabase(); db.closeDatabase(); }
  mc::transition(4);
  if (kind == 3 && !rotate) { struct stat st; MC_CHECK(stat(f.c_str(), &st) == 0 && st.st_size == 4000, "db-foreign", "a file that is no database was changed"); }
}
int main(int argc, char** argv)
{
  setenv("TZ", "UTC", 1);
  bool th = false; for (int i = 1; i < argc; ++i) th |= string(argv[i]) == "--thorough";
  lg::LoggingManager::instance().initialize();
  return mc::run(argc, argv, {
    { "udp", [] { udp(1, false); } }, { "udp-sequences", [th] { udp(th ? 3 : 2, false); } }, { "udp-failing", [th] { udp(th ? 3 : 2, true); } },
    { "database", [] { database(1, false); } }, { "database-sequences", [th] { database(th ? 3 : 2, false); } }, { "database-failing", [th] { database(th ? 3 : 2, true); } },
    { "rotation", [th] { rotation(th ? 7 : 5); } }, { "unusable", unusable } });
}
