// A stand-in for the parts of Qt the logging server (uls) uses: no Qt is installed here. Objects and
// signals work within one thread, the network is a queue filled by the harness, databases are SQLite.
#ifndef VERIF_QTSTUB_H
#define VERIF_QTSTUB_H
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <sqlite3.h>
typedef long long qint64; typedef unsigned long long quint64; typedef unsigned short quint16; typedef int qint32; typedef unsigned int quint32; typedef unsigned char quint8;

class QByteArray
{
public:
  QByteArray() { } QByteArray(const char* s) : m_s(s ? s : "") { } QByteArray(const char* s, int n) : m_s(s, size_t(n)) { } QByteArray(int n, char c) : m_s(size_t(n), c) { }
  void resize(int n) { m_s.resize(size_t(n < 0 ? 0 : n), '\xa5'); }       // Qt leaves new bytes undefined
  char* data() { return &m_s[0]; } const char* data() const { return m_s.c_str(); } const char* constData() const { return m_s.c_str(); }
  int size() const { return int(m_s.size()); } int length() const { return size(); } int count() const { return size(); } bool isEmpty() const { return m_s.empty(); } void clear() { m_s.clear(); }
  void reserve(int) { } QByteArray& fill(char c, int n = -1) { m_s.assign(n < 0 ? m_s.size() : size_t(n), c); return *this; }
  QByteArray& append(const QByteArray& o) { m_s += o.m_s; return *this; } QByteArray& append(char c) { m_s += c; return *this; } QByteArray& operator += (const QByteArray& o) { return append(o); }
  QByteArray left(int n) const { QByteArray r; r.m_s = m_s.substr(0, size_t(n)); return r; } void truncate(int n) { if (n < size()) m_s.resize(size_t(n)); }
  bool operator == (const QByteArray& o) const { return m_s == o.m_s; } bool operator != (const QByteArray& o) const { return m_s != o.m_s; } std::string toStdString() const { return m_s; }
private:
  std::string m_s;
};
class QString                                       // of bytes: encodings are not looked at
{
public:
  QString() { } QString(const char* s) : m_s(s ? s : "") { } QString(const QByteArray& b) : m_s(b.constData()) { }
  static QString fromStdString(const std::string& s) { QString r; r.m_s = s; return r; } static QString fromUtf8(const char* s, int n = -1) { QString r; if (n < 0) r.m_s = s ? s : ""; else r.m_s.assign(s, size_t(n)); return r; }
  static QString fromUtf8(const QByteArray& b) { return fromUtf8(b.constData(), b.size()); } static QString fromLatin1(const char* s, int n = -1) { return fromUtf8(s, n); } static QString fromAscii(const char* s, int n = -1) { return fromUtf8(s, n); } static QString fromLocal8Bit(const char* s, int n = -1) { return fromUtf8(s, n); }
  static QString number(qint64 n) { return fromStdString(std::to_string(n)); }
  QString& append(const QString& o) { m_s += o.m_s; return *this; } QString& append(const char* s) { m_s += s; return *this; } QString& append(const QByteArray& b) { m_s += b.constData(); return *this; } QString& prepend(const QString& o) { m_s = o.m_s + m_s; return *this; }
  QString& operator += (const QString& o) { return append(o); } QString& operator += (const char* s) { return append(s); } QString operator + (const QString& o) const { QString r = *this; return r.append(o); }
  friend QString operator + (const char* a, const QString& b) { return QString(a) + b; }
  QString arg(const QString& a) const { for (char d = '1'; d <= '9'; ++d) { size_t p = m_s.find(std::string("%") + d); if (p != std::string::npos) { QString r = *this; r.m_s.replace(p, 2, a.m_s); return r; } } return *this; }
  bool operator == (const QString& o) const { return m_s == o.m_s; } bool operator != (const QString& o) const { return m_s != o.m_s; } bool operator == (const char* s) const { return m_s == s; } bool operator != (const char* s) const { return m_s != s; } bool operator < (const QString& o) const { return m_s < o.m_s; }
  bool isEmpty() const { return m_s.empty(); } int size() const { return int(m_s.size()); } int length() const { return size(); }
  std::string toStdString() const { return m_s; } QByteArray toUtf8() const { return QByteArray(m_s.data(), int(m_s.size())); } QByteArray toLatin1() const { return toUtf8(); } QByteArray toLocal8Bit() const { return toUtf8(); }
private:
  std::string m_s;
};
class QStringList : public std::vector<QString>
{
public:
  bool contains(const QString& s) const { for (auto& e : *this) if (e == s) return true; return false; } int count() const { return int(size()); } bool isEmpty() const { return empty(); } void append(const QString& s) { push_back(s); } QStringList& operator << (const QString& s) { push_back(s); return *this; }
  int indexOf(const QString& s) const { for (size_t i = 0; i < size(); ++i) if ((*this)[i] == s) return int(i); return -1; }
};
#define foreach(v, c) for (v : c)
#define Q_FOREACH(v, c) for (v : c)

namespace qtstub { typedef std::function<void()> Slot; }
class QObject
{
public:
  explicit QObject(QObject* parent = nullptr) : m_parent(parent) { if (parent) parent->m_children.push_back(this); }
  virtual ~QObject() { auto c = m_children; m_children.clear(); for (auto* o : c) { o->m_parent = nullptr; delete o; } if (m_parent) for (auto i = m_parent->m_children.begin(); i != m_parent->m_children.end(); ++i) if (*i == this) { m_parent->m_children.erase(i); break; } }
  static bool connect(QObject* sender, const char* signal, const void*, qtstub::Slot slot) { sender->m_slots[signal].push_back(slot); return true; }
  void emitSignal(const char* signal) { auto s = m_slots[signal]; for (auto& f : s) f(); }
private:
  QObject(const QObject&); QObject& operator = (const QObject&);
  QObject* m_parent; std::vector<QObject*> m_children; std::map<std::string, std::vector<qtstub::Slot> > m_slots;
};
#define Q_OBJECT
#define slots
#define Q_SLOTS
#define Q_EMIT
#define SIGNAL(s) #s
#define SLOT(s) qtstub::Slot([this] { s; })

class QHostAddress { public: enum SpecialAddress { Null, Any, AnyIPv4, LocalHost }; QHostAddress(SpecialAddress a = Null) : m_a(a) { } SpecialAddress m_a; };
class QUdpSocket : public QObject
{
public:
  enum BindFlag { DefaultForPlatform = 0, ShareAddress = 1, DontShareAddress = 2, ReuseAddressHint = 4 };
  explicit QUdpSocket(QObject* parent = nullptr) : QObject(parent) { all().push_back(this); }
  ~QUdpSocket() { for (auto i = all().begin(); i != all().end(); ++i) if (*i == this) { all().erase(i); break; } }
  bool bind(quint16 port, int mode = 0) { (void)mode; m_port = port; return true; } bool bind(const QHostAddress&, quint16 port = 0, int mode = 0) { return bind(port, mode); }
  bool hasPendingDatagrams() const { return !m_queue.empty(); } qint64 pendingDatagramSize() const { return m_queue.empty() ? -1 : qint64(m_queue.front().size()); }
  qint64 readDatagram(char* d, qint64 n, QHostAddress* = nullptr, quint16* = nullptr)
  {
    m_read = true; if (m_queue.empty()) return -1;
    std::string s = m_queue.front(); m_queue.pop_front(); n = std::min<qint64>(n, qint64(s.size())); if (n > 0) memcpy(d, s.data(), size_t(n)); return n;      // the rest is lost
  }
  bool isValid() const { return m_port != 0; } QString errorString() const { return ""; } quint16 localPort() const { return m_port; } void close() { m_port = 0; }
  // for the harness: datagrams arrive; the signal is not repeated while nobody has read anything since
  void arrive(const std::vector<std::string>& d) { for (auto& s : d) m_queue.push_back(s); if (m_read && !d.empty()) { m_read = false; emitSignal("readyRead()"); } }
  static std::vector<QUdpSocket*>& all() { static std::vector<QUdpSocket*> a; return a; }
private:
  quint16 m_port = 0; bool m_read = true; std::deque<std::string> m_queue;
};

namespace QSql { enum TableType { Tables = 1, SystemTables = 2, Views = 4, AllTables = 255 }; }
class QSqlError { public: QSqlError(const std::string& t = "") : m_t(t) { } bool isValid() const { return !m_t.empty(); } QString text() const { return QString::fromStdString(m_t); } int type() const { return isValid(); } enum ErrorType { NoError, ConnectionError, StatementError, TransactionError, UnknownError }; private: std::string m_t; };
class QVariant { public: QVariant(const QString& s) : m_s(s.toStdString()), m_int(false) { } QVariant(const char* s) : m_s(s), m_int(false) { } QVariant(int n) : m_s(std::to_string(n)), m_int(true) { } QVariant(qint64 n) : m_s(std::to_string(n)), m_int(true) { } std::string m_s; bool m_int; };
namespace qtstub
{
  struct Connection { sqlite3* db = nullptr; std::string name, error; ~Connection() { sqlite3_close(db); } };
  inline std::shared_ptr<Connection>& current() { static std::shared_ptr<Connection> c; return c; }
}
class QSqlDatabase;
class QSqlQuery
{
public:
  QSqlQuery() { m_c = qtstub::current(); } explicit QSqlQuery(const QSqlDatabase& db); QSqlQuery(const QString& sql, const QSqlDatabase& db);
  explicit QSqlQuery(std::shared_ptr<qtstub::Connection> c) : m_c(c) { }
  bool prepare(const QString& sql) { m_sql = sql.toStdString(); m_values.clear(); return true; } void addBindValue(const QVariant& v) { m_values.push_back(v); } void bindValue(int i, const QVariant& v) { while (int(m_values.size()) <= i) m_values.push_back(QVariant("")); m_values[size_t(i)] = v; }
  bool exec(const QString& sql) { prepare(sql); return exec(); }
  bool exec()
  {
    m_ok = false; m_error = "no database"; if (!m_c || !m_c->db) return false;
    sqlite3_stmt* q = nullptr; const char* tail = nullptr;
    if (sqlite3_prepare_v2(m_c->db, m_sql.c_str(), -1, &q, &tail) == SQLITE_OK && q)
    {
      std::string rest = tail ? tail : "";
      if (rest.find_first_not_of(" \t\r\n") != std::string::npos) m_error = "Unable to execute multiple statements at a time";
      else { for (size_t i = 0; i < m_values.size(); ++i) sqlite3_bind_text(q, int(i + 1), m_values[i].m_s.c_str(), -1, SQLITE_TRANSIENT); int r; while ((r = sqlite3_step(q)) == SQLITE_ROW) { } m_ok = r == SQLITE_DONE; m_error = m_ok ? "" : sqlite3_errmsg(m_c->db); }
    }
    else m_error = sqlite3_errmsg(m_c->db);
    sqlite3_finalize(q); m_c->error = m_error; return m_ok;
  }
  bool isActive() const { return m_ok; } QSqlError lastError() const { return QSqlError(m_error); }
private:
  std::shared_ptr<qtstub::Connection> m_c; std::string m_sql, m_error; std::vector<QVariant> m_values; bool m_ok = false;
};
class QSqlDatabase
{
public:
  static QSqlDatabase addDatabase(const QString& driver, const QString& = QString()) { QSqlDatabase d; if (driver == "QSQLITE") d.m_c.reset(new qtstub::Connection); qtstub::current() = d.m_c; return d; }
  static void removeDatabase(const QString&) { qtstub::current().reset(); }
  void setDatabaseName(const QString& n) { if (m_c) m_c->name = n.toStdString(); }
  bool open() { if (!m_c) return false; close(); if (sqlite3_open(m_c->name.c_str(), &m_c->db) != SQLITE_OK) { m_c->error = "cannot open"; close(); return false; } return true; }
  void close() { if (m_c && m_c->db) { sqlite3_close(m_c->db); m_c->db = nullptr; } } bool isOpen() const { return m_c && m_c->db; } bool isValid() const { return bool(m_c); }
  QStringList tables(int type = QSql::Tables) const
  {
    QStringList r; if (!isOpen()) return r; sqlite3_stmt* q = nullptr;
    if (sqlite3_prepare_v2(m_c->db, "SELECT name, type FROM sqlite_master ORDER BY name", -1, &q, nullptr) == SQLITE_OK) while (sqlite3_step(q) == SQLITE_ROW) { std::string t = (const char*)sqlite3_column_text(q, 1); if ((t == "table" && (type & QSql::Tables)) || (t == "view" && (type & QSql::Views))) r.push_back((const char*)sqlite3_column_text(q, 0)); }
    sqlite3_finalize(q); if (type & QSql::SystemTables) r.push_back("sqlite_master"); return r;
  }
  QSqlQuery exec(const QString& sql = QString()) const { QSqlQuery q(m_c); if (!sql.isEmpty()) q.exec(sql); return q; }
  bool transaction() { return exec("BEGIN").isActive(); } bool commit() { return exec("COMMIT").isActive(); } bool rollback() { return exec("ROLLBACK").isActive(); }
  QSqlError lastError() const { return QSqlError(m_c ? m_c->error : "no database"); }
  std::shared_ptr<qtstub::Connection> m_c;
};
inline QSqlQuery::QSqlQuery(const QSqlDatabase& db) : m_c(db.m_c) { }
inline QSqlQuery::QSqlQuery(const QString& sql, const QSqlDatabase& db) : m_c(db.m_c) { exec(sql); }

namespace qtstub { inline std::function<int()>& loop() { static std::function<int()> l; return l; } }
class QCoreApplication : public QObject { public: QCoreApplication(int&, char**) { } static int exec() { return qtstub::loop()(); } static void quit() { } };
#endif
