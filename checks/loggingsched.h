// Shared parts of the logging checks under the controlled scheduler: outputs that record what they are given.
#pragma once
#include "threads.h"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <iostream>
#include <list>
#include <map>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <boost/lexical_cast.hpp>
#include <boost/regex.hpp>
#include <boost/shared_ptr.hpp>
#define private public      // the harness watches the containers for unordered accesses
#define protected public
#include "icl_core/BaseTypes.h"
#include "icl_core_config/Config.h"
#include "icl_core_logging/Logging.h"
#include "icl_core_logging/LogOutputStream.h"
#include "icl_core_logging/LoggingManager.h"
#undef private
#undef protected
namespace lg = icl_core::logging;
// Watches a member if there is one of this name.
#define WATCHER(member, what) \
  template <class T> auto watch_##member(T& o, bool on, int) -> decltype((void)o.member) { if (on) sched::watch(&o.member, sizeof o.member, what); else sched::unwatch(&o.member); } \
  template <class T> void watch_##member(T&, bool, long) { }
namespace ls
{
WATCHER(m_log_format, "the log format of an output")
WATCHER(m_new_log_format, "the new log format of an output")
WATCHER(m_message_queue, "the message queue of an output")
WATCHER(m_thread_stream_map, "the pool of message buffers")
WATCHER(m_output_stream_list, "the list of outputs")
template <class T> auto watchOutput(T& o, bool on, int) -> decltype((void)o.m_worker_thread) { if (o.m_worker_thread) watch_m_message_queue(*o.m_worker_thread, on, 0); }
template <class T> void watchOutput(T&, bool, long) { }
enum { MAXMSG = 24, TEXT = 64 };
struct Seen { char text[TEXT]; char origin[TEXT]; char stream[16]; int level; };
//! What the output of one name has got in this execution; outlives the output.
struct Box
{
  int n, inside, starts, ends, thread; bool alive; Seen seen[MAXMSG];
  void add(const char* text, const char* origin, const char* stream, int level)
  {
    MC_CHECK(n < MAXMSG, "endless", "more than %d messages", int(MAXMSG));
    Seen& s = seen[n++]; s.level = level;
    snprintf(s.text, TEXT, "%s", text); snprintf(s.origin, TEXT, "%s", origin); snprintf(s.stream, sizeof s.stream, "%s", stream);
  }
  std::string str() const { std::string r; for (int i = 0; i < n; ++i) r += std::string(seen[i].text) + " "; return r; }
};
static Box g_box[4];
inline int boxOf(const std::string& name) { return name == "One" ? 0 : name == "Two" ? 1 : name == "Three" ? 2 : 3; }
template <bool LINES> class SinkBase : public lg::LogOutputStream
{
public:
  SinkBase(const std::string& name, const std::string& prefix, lg::LogLevel level, bool worker) : LogOutputStream(name, prefix, level, worker), m_box(g_box[boxOf(name)]), m_worker(worker)
  {
    sched::Quiet q;
    MC_CHECK(!m_box.alive, "duplicate", "two outputs of the name %s", name.c_str());
    m_box.alive = true; m_box.thread = -1;
    watchAll(true);
  }
  ~SinkBase()
  {
    sched::Quiet q;
    m_box.alive = false;
    watchAll(false);
    MC_CHECK(m_box.inside == 0, "destroyed-busy", "an output is destroyed while it writes");
  }
  Box& m_box; bool m_worker;
  void watchAll(bool on) { lg::LogOutputStream& o = *this; watch_m_log_format(o, on, 0); watch_m_new_log_format(o, on, 0); watchOutput(o, on, 0); }
protected:
  void enter()
  {
    sched::Quiet q;
    MC_CHECK(m_box.alive, "dead", "a destroyed output is asked to write");
    MC_CHECK(++m_box.inside == 1, "parallel", "two messages are written to one output at the same time");
    if (m_worker) { MC_CHECK(sched::self() == m_box.thread && m_box.starts == m_box.ends + 1, "worker", "thread %d writes a message of an output with worker thread %d (started %d, ended %d times)", sched::self(), m_box.thread, m_box.starts, m_box.ends); }
  }
  void leave() { sched::point("writing"); sched::Quiet q; --m_box.inside; }
  virtual void onStart() { sched::Quiet q; ++m_box.starts; m_box.thread = sched::self(); }
  virtual void onShutdown() { sched::Quiet q; ++m_box.ends; MC_CHECK(sched::self() == m_box.thread, "worker", "onShutdown in another thread"); }
  virtual void pushImpl(const std::string& line)
  {
    enter();
    { sched::Quiet q; m_box.add(line.c_str(), "", "", 0); sched::trace("output %s gets line %s", name().c_str(), line.c_str()); }
    leave();
  }
};
//! Takes whole messages.
class Sink : public SinkBase<false>
{
public:
  Sink(const std::string& name, const std::string& prefix, lg::LogLevel level, bool worker) : SinkBase<false>(name, prefix, level, worker) { }
private:
  virtual void pushImpl(const LogMessage& m)
  {
    enter();
    {
      sched::Quiet q;
      this->m_box.add(m.message_text, mc::format("%s/%s/%s/%zu", m.class_name, m.object_name, m.function_name, m.line).c_str(), m.log_stream, m.log_level);
      sched::trace("output %s gets %s", name().c_str(), m.message_text);
    }
    leave();
  }
};
//! Takes formatted lines.
typedef SinkBase<true> LineSink;
inline void watchStream(lg::LogStream& s)
{
  sched::Quiet q;
  watch_m_thread_stream_map(s, true, 0); watch_m_output_stream_list(s, true, 0);
}
template <bool WORKER> lg::LogOutputStream* create(const std::string& name, const std::string& prefix, lg::LogLevel level) { return new Sink(name, prefix, level, WORKER); }
}
