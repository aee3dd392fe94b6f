// Shared parts of the logging checks: a log output that records what it is given.
#pragma once
#include "mc.h"
#include <iostream>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <cstring>
#include <boost/lexical_cast.hpp>
#include "icl_core/BaseTypes.h"
#include "icl_core_config/Config.h"
#include "icl_core_logging/Logging.h"
#include "icl_core_logging/LogOutputStream.h"
#include "icl_core_logging/LoggingManager.h"
namespace lg = icl_core::logging;
namespace lc
{
struct Record
{
  lg::LogLevel level; std::string stream, file, cls, object, function, text; size_t line;
  std::string str() const { return mc::format("%s %s %s", stream.c_str(), lg::logLevelDescription(level), mc::quote(text).c_str()); }
};
//! A directly working log output that keeps the messages handed to it.
class Recorder : public lg::LogOutputStream
{
public:
  Recorder(const std::string& name, const std::string& prefix, lg::LogLevel level) : LogOutputStream(name, prefix, level, false) { all()[name] = this; }
  ~Recorder() { if (all()[name()] == this) all().erase(name()); }
  static std::map<std::string, Recorder*>& all() { static std::map<std::string, Recorder*>* m = new std::map<std::string, Recorder*>; return *m; }
  static lg::LogOutputStream* create(const std::string& name, const std::string& prefix, lg::LogLevel level) { return new Recorder(name, prefix, level); }
  std::vector<Record> got;
private:
  template <size_t N> static std::string bounded(const char (&a)[N])
  {
    size_t n = strnlen(a, N);
    MC_CHECK(n < N, "unterminated", "a field of %zu bytes handed to a log output is not terminated", N);
    return std::string(a, n);
  }
  virtual void pushImpl(const LogMessage& m)
  {
    Record r; r.level = m.log_level; r.stream = bounded(m.log_stream); r.file = bounded(m.filename); r.line = m.line;
    r.cls = bounded(m.class_name); r.object = bounded(m.object_name); r.function = bounded(m.function_name); r.text = bounded(m.message_text);
    got.push_back(r);
  }
};
}
