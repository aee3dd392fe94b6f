// Included twice, with N(current, old) choosing the spelling. Every function repeats the choices it is given and returns a transcript.
static string outputs(Script& in)
{
  Out o; bool worker = in.choose(2, "worker"); static const char* const F[] = { "~T ~S(~L)~ C~(O~::D: ~E", "~E", "<~T.~3M> ~10S ~F:~G ~E", "~L~", "" };
  static const char* const T[] = { "%Y-%m-%d %H:%M:%S", "%s", "", "%%" }; const char* f = F[in.choose(5, "format")]; const char* t = T[in.choose(4, "time format")];
  lg::LogLevel own = LEVELS[in.choose(6, "level")], message = LEVELS[in.choose(6, "level of the message")];
  Keep k("k", "/k", own, worker); Fields raw("raw", "/raw", own, worker); raw.N(start, Start)(); raw.N(push, Push)(message, "stream", "file", 12, "class", "object", "function", "text\n"); raw.N(shutdown, Shutdown)(); o << raw.lines; o << int(k.N(getLogLevel, LogLevel)()) << k.N(name, Name)();
  k.N(start, Start)(); 
  k.N(push, Push)(message, "stream", "file", 12, "class", "object", "function", "text\n"); k.N(push, Push)(lg::eLL_ERROR, "", "", 0, "", "", "", "plain");
  k.N(shutdown, Shutdown)(); o << k.lines; k.lines.clear();
  k.N(changeLogFormat, ChangeLogFormat)(f); k.N(changeTimeFormat, ChangeTimeFormat)(t); k.N(setLogLevel, SetLogLevel)(lg::eLL_DEBUG); o << int(k.N(getLogLevel, LogLevel)());
  k.N(start, Start)(); for (auto l : LEVELS) k.N(push, Push)(l, "stream", "file", 3, "class", "", "function", "text"); k.N(shutdown, Shutdown)(); o << k.lines; k.N(printConfiguration, PrintConfiguration)();
  return o.text();
}
static string streams(Script& in)
{
  g_fields = true; Out o; bool initialised = in.choose(2, "initialised"); plain(); char name[] = "program"; char* argv[] = { name, nullptr }; int argc = 1;
  if (initialised) { icl_core::config::setValue("/IclCore/Logging/LogStream1/Name", string("Alpha")); icl_core::config::setValue("/IclCore/Logging/LogStream1/LogLevel", string("Warning")); lg::N(initialize, Initialize)(argc, argv); }
  lg::LogStream& s = Alpha::N(instance, Instance)(); o << (&s == Alpha::N(create, Create)()) << (&s == &Alpha::instance()) << s.N(name, Name)() << s.N(nameCStr, NameCStr)() << s.N(isActive, IsActive)() << int(s.N(initialLogLevel, InitialLogLevel)()) << int(s.N(getLogLevel, LogLevel)());
  lg::LogLevel a = LEVELS[in.choose(6, "level")], b = LEVELS[in.choose(6, "level")]; int active = in.choose(3, "active"), outputs = in.choose(3, "outputs");
  Fields x("x", "/x", a, false), y("y", "/y", lg::eLL_TRACE, false);
  s.N(addOutputStream, AddOutputStream)(&x); if (outputs) s.N(addOutputStream, AddOutputStream)(&y);
  if (active == 1) s.N(setActive, SetActive)(false); if (active == 2) { s.N(setActive, SetActive)(false); s.N(setActive, SetActive)(); }
  o << s.N(isActive, IsActive)(); s.N(threadStream, ThreadStream)(b) << "one" << lg::endl; o << int(s.N(threadStream, ThreadStream)(b).getLogLevel()); s.N(threadStream, ThreadStream)(b).N(changeLevel, ChangeLevel)(b); o << int(s.N(initialLogLevel, InitialLogLevel)()) << int(s.N(getLogLevel, LogLevel)()); for (auto l : LEVELS) LOGGING_LOG(Alpha, l, "two" << lg::endl);
  o << x.lines << y.lines; x.lines.clear(); y.lines.clear(); s.N(printConfiguration, PrintConfiguration)();
  if (outputs == 2) s.N(removeOutputStream, RemoveOutputStream)(&y);
  s.N(setActive, SetActive)(true); s.N(threadStream, ThreadStream)(lg::eLL_ERROR) << "three" << lg::endl; o << x.lines << y.lines; s.N(printConfiguration, PrintConfiguration)(); o << taken("One");
  s.N(removeOutputStream, RemoveOutputStream)(&x); s.N(removeOutputStream, RemoveOutputStream)(&y); lg::N(shutdown, Shutdown)(); return o.text();
}
static string threadStreams(Script& in)
{
  g_fields = true; Out o; plain(); char name[] = "program"; char* argv[] = { name, nullptr }; int argc = 1; lg::N(initialize, Initialize)(argc, argv, false);
  lg::LogLevel a = LEVELS[in.choose(6, "level")], b = LEVELS[in.choose(6, "level")]; lg::ThreadStream& t = Alpha::N(instance, Instance)().N(threadStream, ThreadStream)(a);
  o << int(t.N(getLogLevel, LogLevel)()); t.N(changeLevel, ChangeLevel)(b); o << int(t.N(getLogLevel, LogLevel)());
  for (int step = 0; step < 2; ++step)
  {
    static string big(3000, 'y'); int op = in.choose(7, "operation");
    t.N(setLineLogLevel, SetLineLogLevel)(step ? lg::eLL_ERROR : a);
    if (op != 6) { t.N(setClassname, SetClassname)(step ? "" : "class"); t.N(setObjectname, SetObjectname)("object"); t.N(setFilename, SetFilename)("file"); t.N(setFunction, SetFunction)("function"); t.N(setLine, SetLine)(size_t(17 + step)); }
    switch (op)
    {
      case 0: t.N(write, Write)("abcdef", 4); t << lg::N(flush, Flush); break;
      case 1: t.N(write, Write)(big.data(), big.size()); t << lg::N(endl, Endl); break;
      case 2: t.N(write, Write)(big.data(), big.size(), 0); t << "!"; lg::N(endl, Endl)(t); break;
      case 3: t.N(printf, Printf)("%d-%s-%5.2f-%c", 42, "text", 1.5, 'c'); break;
      case 4: t << "before "; t.N(printf, Printf)("%s", big.c_str()); break;
      case 5: t.N(write, Write)(big.data(), big.size(), 9); t.N(write, Write)("123456789", 9, 5); t.N(flush, Flush)(); break;
      case 6: t << lg::N(endl, Endl) << "x" << lg::N(flush, Flush); lg::N(flush, Flush)(t); break;
    }
    o << taken("One");
  }
  lg::N(shutdown, Shutdown)(); return o.text();
}
static string manager(Script& in)
{
  Out o; lg::LoggingManager& m = lg::LoggingManager::N(instance, Instance)(); o << (&m == &lg::LoggingManager::instance()) << m.N(initialized, Initialized)();
  int first = in.choose(4, "configuration"); if (first) plain(); if (first == 2) icl_core::config::setValue("/IclCore/Logging/OutputStreamA/LogStream1", string("Alpha")); if (first == 3) { icl_core::config::setValue("/IclCore/Logging/OutputStreamB/OutputStreamName", string("Extra")); icl_core::config::setValue("/IclCore/Logging/OutputStreamB/LogLevel", string("Info")); }
  m.N(registerLogOutputStream, RegisterLogOutputStream)("Extra", &Keep::create); m.N(registerLogStream, RegisterLogStream)("Later", &Alpha::create);
  m.N(initialize, Initialize)(); o << m.N(initialized, Initialized)(); m.N(assertInitialized, AssertInitialized)();
  auto say = [&] { if (Alpha::instance().isActive()) Alpha::instance().threadStream(lg::eLL_ERROR) << "a" << lg::endl; { lg::ThreadStream& b = Beta::instance().threadStream(lg::eLL_INFO); b.setClassname("class"); b.setObjectname("object"); b.setFunction("function"); b << "b" << lg::endl; } o << taken("One") << taken("Extra"); };
  if (first) say();
  Keep extra("extra", "/extra", lg::eLL_TRACE, false);
  for (int step = 0; step < 3; ++step) switch (in.choose(8, "operation"))
  {
    case 0: break;
    case 1: m.N(configure, Configure)(); break;
    case 2: m.N(changeLogFormat, ChangeLogFormat)("One"); break;
    case 3: m.N(changeLogFormat, ChangeLogFormat)("One", "~L ~E"); break;
    case 4: Alpha::instance().addOutputStream(&extra); if (first) say(); m.N(removeLogOutputStream, RemoveLogOutputStream)(&extra); break;
    case 5: { auto i = Keep::made().find("One"); if (i != Keep::made().end()) { m.N(removeLogOutputStream, RemoveLogOutputStream)(i->second, false); } break; }
    case 6: m.N(removeLogStream, RemoveLogStream)("Beta"); break;
    case 7: m.N(registerLogStream, RegisterLogStream)(&Beta::instance()); break;
  }
  m.N(printConfiguration, PrintConfiguration)(); if (first) say(); o << extra.lines; Alpha::instance().removeOutputStream(&extra);
  m.N(shutdown, Shutdown)(); o << m.N(initialized, Initialized)() << Keep::made().size(); return o.text();
}
static string start(Script& in)
{
  Out o; static const char* const A[][3] = { { "program", "-l", "Debug" }, { "program", "-qd", "qd" }, { "program", "-unknown", "x" }, { "program", "rest", "more" }, { "program", "-l", "Nonsense" } };
  plain(); int which = in.choose(5, "arguments"), how = in.choose(7, "by"); char text[3][16]; char* argv[4]; for (int i = 0; i < 3; ++i) { strcpy(text[i], A[which][i]); argv[i] = text[i]; } argv[3] = nullptr; int argc = 3; int level = in.choose(5, "level"); bool ok = true;
  using namespace icl_core::config;
  switch (how)
  {
    case 0: ok = lg::N(initialize, Initialize)(argc, argv, true); break;
    case 1: ok = lg::N(initialize, Initialize)(argc, argv, false); break;
    case 2: ok = lg::N(initialize, Initialize)(argc, argv); break;
    case 3: ok = lg::N(initialize, Initialize)(argc, argv, Getopt::eCLC_Cleanup); break;
    case 4: ok = lg::N(initialize, Initialize)(argc, argv, Getopt::eCLC_None, Getopt::ePRC_Relaxed); break;
    case 5: ok = lg::N(initialize, Initialize)(argc, argv, Getopt::eCLC_Cleanup, Getopt::ePRC_Relaxed); break;
    case 6: ok = icl_core::config::initialize(argc, argv, Getopt::eCLC_None, Getopt::ePRC_Relaxed); lg::N(initialize, Initialize)(); break;
  }
  o << ok << argc; for (int i = 0; i < argc; ++i) o << argv[i]; if (!ok) return o.text();
  lg::QuickDebug::N(instance, Instance)().N(threadStream, ThreadStream)(LEVELS[level]) << "quick" << lg::endl; LOGGING_LOG(Alpha, LEVELS[level], "text" << lg::endl);
  o << taken("One"); lg::N(shutdown, Shutdown)(); o << Keep::made().size(); return o.text();
}
