// L09: the logging server stores every datagram as one row. The real server (uls) on a stand-in for Qt,
// fed with the records of the real UDP output.
#include "mc.h"
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <netinet/in.h>
#include <sqlite3.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include "icl_core/BaseTypes.h"
#include "icl_core/TimeStamp.h"
#include "icl_core/tString.h"
#include <new>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <cassert>
#include <boost/regex.hpp>
#include <boost/lexical_cast.hpp>
#include "icl_core/List.h"
#include "icl_core/Map.h"
#include "icl_core_config/AttributeTree.h"
#include "icl_core_config/ConfigIterator.h"
#include "icl_core_config/ConfigParameter.h"
#include "icl_core_config/ConfigPositionalParameter.h"
#define private public                 // the process-wide objects are put back into their first state
#include "icl_core_config/GetoptParser.h"
#include "icl_core_config/ConfigManager.h"
#undef private
#include "icl_core_config/Config.h"
#include "icl_core_logging/Logging.h"
#include "icl_core_logging/LogOutputStream.h"
#include "icl_core_logging/LoggingManager.h"
#include "icl_core_logging/UdpLogOutput.h"
namespace lg = icl_core::logging;
using std::string;

// ---------------------------------------------------------------- the clock and the network
static bool g_fake = false; static timespec g_now;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { timespec t = g_now; if (!g_fake) syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
extern "C" int clock_gettime(clockid_t c, timespec* t) noexcept { if (g_fake && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { *t = g_now; return 0; } return int(syscall(SYS_clock_gettime, c, t)); }
static bool g_net = false; static std::vector<string> g_sent; static int g_port;
static bool isSocket(int fd) { struct stat st; return g_net && fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode); }
static ssize_t sent(int fd, const void* b, size_t n)
{
  struct sockaddr_in a; socklen_t l = sizeof a; g_port = getpeername(fd, (struct sockaddr*)&a, &l) == 0 && a.sin_family == AF_INET ? ntohs(a.sin_port) : -1;
  g_sent.push_back(string((const char*)b, n)); return ssize_t(n);
}
extern "C" ssize_t write(int fd, const void* b, size_t n) { if (isSocket(fd)) return sent(fd, b, n); return syscall(SYS_write, fd, b, n); }
extern "C" ssize_t send(int fd, const void* b, size_t n, int f) { if (isSocket(fd)) return sent(fd, b, n); return syscall(SYS_sendto, fd, b, n, f, nullptr, 0); }
extern "C" ssize_t sendto(int fd, const void* b, size_t n, int f, const struct sockaddr* a, socklen_t l) { if (isSocket(fd)) return sent(fd, b, n); return syscall(SYS_sendto, fd, b, n, f, a, l); }
extern "C" int fsync(int) { return 0; }
extern "C" int fdatasync(int) { return 0; }

// ---------------------------------------------------------------- the server
#include "qtstub.h"
#define main uls_main
#include "uls/UdpLoggingServer.cpp"
#include "uls/uls.cpp"
#undef main

// ---------------------------------------------------------------- messages
struct Message { lg::LogLevel level; string stream, file, cls, object, function, text; int line; };
static const std::vector<string>& texts()
{
  static const std::vector<string> T = { "plain", "", "'", "\\", "a'b", "\\'", "','", "two\nlines", "\xc3\xa4 \xff", "''", "\"%s\" %1", "'); DROP TABLE log_entries; --", string(900, 'l'), string(900, '\'') };
  return T;
}
static Message base(int i) { Message m; m.level = lg::eLL_INFO; m.stream = "Stream"; m.file = "file.cpp"; m.cls = "Class"; m.object = "object"; m.function = "function"; m.text = mc::format("message %d", i); m.line = 10 + i; return m; }
static string* field(Message& m, int f) { string* p[] = { &m.text, &m.object, &m.cls, &m.file, &m.function, &m.stream }; return p[f]; }
typedef std::vector<string> Row;
static const char* const COLUMN[] = { "system_name", "timestamp", "timestamp_ns", "log_level", "log_stream", "file", "line", "class", "object", "function", "message" };
static std::vector<Row> rows(const string& file)
{
  std::vector<Row> r; sqlite3* db = nullptr; sqlite3_stmt* q = nullptr; string sql = "SELECT ";
  for (int i = 0; i < 11; ++i) sql += string(i ? ", " : "") + COLUMN[i];
  if (sqlite3_open_v2(file.c_str(), &db, SQLITE_OPEN_READONLY, nullptr) == SQLITE_OK && sqlite3_prepare_v2(db, (sql + " FROM log_entries ORDER BY rowid").c_str(), -1, &q, nullptr) == SQLITE_OK)
    while (sqlite3_step(q) == SQLITE_ROW) { Row w; for (int i = 0; i < 11; ++i) { const void* p = sqlite3_column_blob(q, i); w.push_back(p ? string((const char*)p, size_t(sqlite3_column_bytes(q, i))) : sqlite3_column_type(q, i) == SQLITE_TEXT ? "" : "<null>"); } r.push_back(w); }
  else r.push_back(Row(1, db ? sqlite3_errmsg(db) : "no database"));
  sqlite3_finalize(q); sqlite3_close(db);
  return r;
}
static void sql(const string& file, const char* statement) { sqlite3* db = nullptr; sqlite3_open(file.c_str(), &db); sqlite3_exec(db, statement, 0, 0, 0); sqlite3_close(db); }
static void fresh()
{
  using namespace icl_core::config; Getopt& g = Getopt::instance(); ConfigManager& m = ConfigManager::instance(); m.~ConfigManager(); g.~Getopt(); new (&g) Getopt; new (&m) ConfigManager;
}
struct Setup
{
  std::ostringstream e, o; std::streambuf *err, *out; string db;
  Setup()
  {
    err = std::cerr.rdbuf(e.rdbuf()); out = std::cout.rdbuf(o.rdbuf()); g_fake = true; g_now = { 1000000000, 123456000 }; g_sent.clear();
    db = mc::scratch() + "/server.db"; for (auto s : { "", "-journal", "-wal", "-shm" }) unlink((db + s).c_str());
  }
  ~Setup() { std::cerr.rdbuf(err); std::cout.rdbuf(out); g_fake = g_net = false; }
};
//! What the UDP output sends for a message; the row it has to become.
static string datagram(const Message& m, Row& want)
{
  g_net = true; g_sent.clear();
  icl_core::config::setValue("/L09/Host", string("127.0.0.1")); icl_core::config::setValue("/L09/SystemName", string("sys'tem"));
  lg::LogOutputStream* o = lg::UdpLogOutput::create("udp", "/L09", lg::eLL_TRACE); o->start();
  g_now.tv_sec += 1; want = { "sys'tem", icl_core::TimeStamp(g_now.tv_sec, g_now.tv_nsec).formatIso8601(), std::to_string(g_now.tv_nsec), lg::logLevelDescription(m.level), m.stream, m.file, std::to_string(m.line), m.cls, m.object, m.function, m.text };
  o->push(m.level, m.stream.c_str(), m.file.c_str(), m.line, m.cls.c_str(), m.object.c_str(), m.function.c_str(), m.text.c_str());
  o->shutdown(); delete o;
  g_net = false;
  MC_CHECK(g_sent.size() == 1, "sent", "%zu datagrams for one message", g_sent.size());
  return g_sent[0];
}
//! The record of the histories with a given number.
static const std::pair<string, Row>& record(int n)
{
  static std::vector<std::pair<string, Row> > r;
  while (int(r.size()) <= n) { Message m = base(int(r.size())); m.text = texts()[4 + r.size() % 3]; Row w; string d = datagram(m, w); r.push_back(std::make_pair(d, w)); }
  return r[size_t(n)];
}
static void same(const string& db, const std::vector<Row>& want, const char* where)
{
  std::vector<Row> got = rows(db);
  MC_CHECK(got.size() == want.size(), "rows", "%s: %zu rows, expected %zu%s%s", where, got.size(), want.size(), got.empty() ? "" : ": ", got.empty() ? "" : mc::quote(got[0][0]).c_str());
  for (size_t i = 0; i < got.size(); ++i) for (size_t c = 0; c < 11 && c < got[i].size(); ++c) MC_CHECK(got[i][c] == want[i][c], "value", "%s: row %zu has the %s %s, expected %s", where, i, COLUMN[c], mc::quote(got[i][c]).c_str(), mc::quote(want[i][c]).c_str());
}
static QUdpSocket* server()
{
  QUdpSocket* s = nullptr; for (auto* x : QUdpSocket::all()) if (x->localPort()) { MC_CHECK(!s, "socket", "the server listens twice"); s = x; }
  MC_CHECK(s, "socket", "the server does not listen"); return s;
}
static int run(const string& db, const std::function<void()>& during)
{
  std::vector<string> a = { "uls", "-f", db }; std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr);
  bool ran = false; qtstub::loop() = [&] { ran = true; during(); return 0; };
  fresh(); int r = uls_main(3, v.data());
  MC_CHECK(ran && r == 0, "start", "the server does not start (%d)", r);
  MC_CHECK(QUdpSocket::all().empty(), "socket", "the server still listens after its end");
  return r;
}

// ---------------------------------------------------------------- scenarios
//! One message with unusual texts.
static void fields()
{
  Setup s; Message m = base(0);
  int a = mc::choose(6, "first field"), ta = mc::choose(int(texts().size()), "its text"), b = mc::choose(6, "second field");
  if (b < a) mc::prune();
  *field(m, a) = texts()[size_t(ta)]; if (b == a) { m.level = mc::pick(std::vector<lg::LogLevel>{ lg::eLL_TRACE, lg::eLL_ERROR }, "level"); m.line = mc::flip("line") ? 0x7fffffff : 0; } else *field(m, b) = texts()[size_t(mc::choose(int(texts().size()), "its text"))];
  m.stream = m.stream.substr(0, 200); m.file = m.file.substr(0, 200); m.cls = m.cls.substr(0, 200); m.object = m.object.substr(0, 200); m.function = m.function.substr(0, 200);
  Row want; string d = datagram(m, want);
  run(s.db, [&] { MC_CHECK(server()->localPort() == g_port, "port", "the output sends to port %d, the server listens on %d", g_port, int(server()->localPort())); server()->arrive({ d }); });
  mc::transition(2);
  same(s.db, { want }, "one message");
}
//! Histories: datagrams arrive alone or together, also ones that are no records; the database is locked for a while; the server is started again.
static void histories()
{
  Setup s; std::vector<Row> want, kept; int n = 0, before = mc::choose(3, "database");
  if (before == 1) sql(s.db, "CREATE TABLE other (x TEXT)");
  if (before == 2) sql(s.db, "CREATE TABLE a_log_entries_b (x TEXT)");
  static const char* const BAD[] = { "", "garbage", "'a','b'", "1);DROP TABLE log_entries; --", "'unfinished" };
  std::vector<string> batch; int ops = mc::thorough() ? 5 : 4; bool more = true; int locked = 0;
  while (more)
  {
    more = false;
    run(s.db, [&]
    {
      sqlite3* other = nullptr;
      struct Close { sqlite3*& d; ~Close() { if (d) { sqlite3_exec(d, "ROLLBACK", 0, 0, 0); sqlite3_close(d); } } } close = { other };
      auto deliver = [&] { if (!batch.empty()) { mc::trace("%zu datagrams arrive", batch.size()); server()->arrive(batch); mc::transition(batch.size()); batch.clear(); } };
      while (ops > 0)
      {
        --ops; int op = mc::choose(5, "operation");
        if (op == 0 || op == 1)
        { // a record, delivered at once or together with the next ones
          const auto& r = record(n++); batch.push_back(r.first); mc::trace("record %d", n - 1); if (!other) want.push_back(r.second);
          if (op == 0 || other) deliver();
        }
        else if (op == 2) { batch.push_back(mc::pick(BAD, "not a record")); mc::trace("not a record: %s", batch.back().c_str()); if (mc::flip("at once") || other) deliver(); }
        else if (op == 3)
        {
          deliver();
          if (other) { sqlite3_exec(other, "ROLLBACK", 0, 0, 0); sqlite3_close(other); other = nullptr; mc::trace("unlocked"); }
          else { sqlite3_open(s.db.c_str(), &other); MC_CHECK(sqlite3_exec(other, "BEGIN EXCLUSIVE", 0, 0, 0) == SQLITE_OK, "locked", "the server keeps the database locked: %s", sqlite3_errmsg(other)); ++locked; mc::trace("locked"); }
        }
        else { deliver(); more = ops > 0; mc::trace("the server ends"); break; }
      }
      deliver();
    });
    same(s.db, want, "after the end of the server");
  }
  mc::state(mc::hashStr(mc::format("%zu %d %d", want.size(), n, locked)));
  if (before)
  {
    sqlite3* db = nullptr; sqlite3_open(s.db.c_str(), &db); int r = sqlite3_exec(db, before == 1 ? "SELECT x FROM other" : "SELECT x FROM a_log_entries_b", 0, 0, 0); sqlite3_close(db);
    MC_CHECK(r == SQLITE_OK, "other", "another table of the database has gone");
  }
}
//! The command line.
static void commandLine()
{
  Setup s; int k = mc::choose(4, "arguments");
  std::vector<string> a = { "uls" };
  if (k == 1) { a.push_back("-f"); a.push_back(s.db); } else if (k == 2) a.push_back("--filename=" + s.db); else if (k == 3) a.push_back("--config-option/Filename=" + s.db);
  std::vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr);
  bool ran = false; Row w; string d = datagram(base(1), w); qtstub::loop() = [&] { ran = true; server()->arrive({ d }); return 7; };
  fresh(); int r = uls_main(int(a.size()), v.data()); mc::transition();
  if (k == 0) MC_CHECK(r != 0 && !ran && (s.e.str() + s.o.str()).find("filename") != string::npos, "usage", "without a file: result %d, started %d, output %s", r, int(ran), mc::quote(s.e.str() + s.o.str()).c_str());
  else { MC_CHECK(ran && r == 7, "start", "started %d, result %d", int(ran), r); same(s.db, { w }, "one message"); }
}
int main(int argc, char** argv)
{
  setenv("TZ", "UTC", 1);
  lg::LoggingManager::instance().initialize();
  return mc::run(argc, argv, { mc::Scenario("fields", fields), mc::Scenario("histories", histories), mc::Scenario("command line", commandLine) });
}
