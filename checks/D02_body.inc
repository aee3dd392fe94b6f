// Included twice, with N(current, old) choosing the spelling. Every function makes its choices through `in`, which repeats in the
// second inclusion what was chosen in the first one, and returns a transcript of everything observed.
static string paths(Script& in)
{
  Out o; static const char* const F[] = { "", "a", "a.b", "/x/y.z", "./q/../r.s.t", "/", "x/", "a\\b", "$V/f", "${V}/f.g", "/a//b/./c", "../u", "~/h" };
  string f = F[in.choose(13, "file")], g = F[in.choose(13, "second file")]; FilePath p(f.c_str());
  o << p.N(path, Path)() << p.N(name, Name)() << p.N(absoluteName, AbsoluteName)() << p.N(currentDir, CurrentDir)() << p.N(extension, Extension)() << p.N(absolutePath, AbsolutePath)(g)
    << FilePath::N(isRelativePath, IsRelativePath)(g) << p.N(isRelativePath, IsRelativePath)() << FilePath::N(normalizePath, NormalizePath)(g) << FilePath::N(exchangeSeparators, ExchangeSeparators)(g)
    << FilePath::N(getEnvironment, GetEnvironment)("V") << FilePath::N(getEnvironment, GetEnvironment)("UNSET_V") << FilePath::N(replaceEnvironment, ReplaceEnvironment)(g);
  return o.text();
}
// ---------------------------------------------------------------- attribute trees
static string where(AttributeTree* t) { if (!t) return "null"; string r; for (int n = 0; t && n < 20; t = t->parentTree(), ++n) r = string("/") + (t->getDescription() ? t->getDescription() : "-") + r; return r; }
static string all(AttributeTree& t) { std::ostringstream s; t.printSubTree(s); return s.str() + (t.changed() ? "!" : "."); }
static AttributeTree* below(AttributeTree& t, string d) { AttributeTree* s = &t; while (s && !d.empty()) { size_t n = d.find('.'); s = s->getSubTree(d.substr(0, n).c_str()); d = n == string::npos ? "" : d.substr(n + 1); } return s; }
static string trees(Script& in)
{
  static const char* const TEXT[] = { "", "a:1\nb:2\n", "a{\n  b:1\n  c{\n    d:2\n  }\n}\nx:3\n", "_COMMENT_:remark\na:1\n_COMMENT_{\nlines\n}_COMMENT_\nb{\nc:2\n}\n" };
  Out o; AttributeTree t("root"); int k = in.choose(4, "tree"); bool comments = in.choose(2, "comments");
  { std::istringstream s(TEXT[k]); if (comments) o << t.N(get, Get)(s, false, true); else o << t.N(get, Get)(s); } t.unmarkChanges(); o << all(t);
  std::vector<std::unique_ptr<AttributeTree> > loose;                                    // subtrees without a parent
  for (int step = 0; step < (mc::thorough() ? 3 : 2); ++step)
  {
    static const char* const D[] = { "a", "a.b", "b", "new", "a.c.d", "" }; int op = in.choose(38, "operation"); const char* d = op < 17 ? D[in.choose(6, "description")] : "";
    AttributeTree* s = op < 17 ? below(t, d) : nullptr; if (op < 17 && (op > 2 && op < 17) && !s) { o << "no subtree"; continue; }
    switch (op)
    {
      case 0: o << where(t.N(setAttribute, SetAttribute)(d, "v")); break;
      case 1: o << where(t.N(setAttribute, SetAttribute)(d, "s", "w")); break;
      case 2: { AttributeTree* u = &t; o << t.N(getAttribute, GetAttribute)(d) << t.N(getAttribute, GetAttribute)(d, "dflt") << t.N(getAttribute, GetAttribute)(d, "dflt", &u) << where(u) << t.N(getOrSetDefault, GetOrSetDefault)(d, "set"); break; }
      case 3: o << s->N(getAttribute, GetAttribute)() << s->N(getDescription, Description)() << s->N(attribute, Attribute)() << where(s->N(parentTree, ParentTree)()) << where(s->N(parent, Parent)()) << where(s->N(root, Root)()) << s->N(contains, Contains)(); break;
      case 4: s->N(setDescription, SetDescription)("renamed"); break;
      case 5: s->N(setAttribute, SetAttribute)("att"); break;
      case 6: s->N(setComment, SetComment)("remark"); o << s->N(comment, Comment)() << s->N(hasComment, HasComment)() << s->N(hasMultilineComment, HasMultilineComment)(); break;
      case 7: s->N(setComment, SetComment)("two\nlines"); o << s->N(comment, Comment)() << s->N(hasComment, HasComment)() << s->N(hasMultilineComment, HasMultilineComment)() << where(s->N(commentAttributeTree, CommentAttributeTree)()); break;
      case 8: o << where(s->N(firstSubTree, FirstSubTree)()); for (AttributeTree* c = s->N(firstSubTree, FirstSubTree)(); c; c = s->N(nextSubTree, NextSubTree)(c)) o << where(c) << c->N(isComment, IsComment)() << c->N(isMultilineComment, IsMultilineComment)(); break;
      case 9: s->N(appendAttribute, AppendAttribute)("more"); s->N(appendAttribute, AppendAttribute)("yet", ","); break;
      case 10: s->N(appendDescription, AppendDescription)("more"); s->N(appendDescription, AppendDescription)("yet", "_"); break;
      case 11: s->N(revertOrder, RevertOrder)(); break;
      case 12: { AttributeTree* n = new AttributeTree("added"); n->setAttribute("q", "9"); o << where(s->N(addSubTree, AddSubTree)(n)); break; }
      case 13: if (s->parentTree()) { AttributeTree* n = new AttributeTree("next"); o << where(s->N(addNextTree, AddNextTree)(n)); } break;
      case 14: if (s != &t) { s->N(unlink, Unlink)(); loose.emplace_back(s); o << where(s) << all(*s); } break;
      case 15: { for (AttributeTree* c = s->firstSubTree(); c; c = s->nextSubTree(c)) loose.emplace_back(c); s->N(unlinkSub, UnlinkSub)(); break; }
      case 16: { std::ostringstream os; s->N(printSubTree, PrintSubTree)(os); os << "|"; s->N(printSubTree, PrintSubTree)(os, 1); os << "|"; s->N(printSubTree, PrintSubTree)(os, 2, "up"); o << os.str(); o << s->N(isAttribute, IsAttribute)("b") << s->N(isAttribute, IsAttribute)("b", "1"); break; }
      case 17: o << where(t.N(subTree, SubTree)("a")) << where(t.N(subTree, SubTree)("a.c")) << where(t.N(subTree, SubTree)("none")); break;
      case 18: o << where(t.N(getSubTree, GetSubTree)("a.n")) << where(t.N(getSubTree, GetSubTree)("m.n")); break;
      case 19: o << where(t.N(search, Search)("b", "1")) << where(t.N(search, Search)("b", "2")) << where(t.N(search, Search)("d", "2")) << where(t.N(search, Search)("x", "?")); break;
      case 20: o << t.N(isAttribute, IsAttribute)("a") << t.N(isAttribute, IsAttribute)("a", "1") << t.N(isAttribute, IsAttribute)("a", "2") << t.N(isAttribute, IsAttribute)("none"); break;
      case 21: o << t.N(changed, Changed)(); break;
      case 22: t.N(unmarkChanges, UnmarkChanges)(); break;
      case 23: o << t.N(contains, Contains)(); break;
      case 24: o << where(t.N(addNewSubTree, AddNewSubTree)()); break;
      case 25: { char* c = t.N(newSubNodeDescription, NewSubNodeDescription)(); char* e = t.N(newSubNodeDescription, NewSubNodeDescription)("base"); o << c << e; free(c); free(e); break; }
      case 26: t.N(revertOrder, RevertOrder)(); break;
      case 27: o << t.N(save, Save)("saved") << slurp("saved"); break;
      case 28: t.setAttribute("chg", "1"); o << t.N(save, Save)("saved", 1, false) << slurp("saved") << t.N(save, Save)("nodir/x"); break;
      case 29: spit("loaded", "l{\nm:1\n}\n_COMMENT_:remark\nn:2\n"); o << t.N(load, Load)("loaded"); break;
      case 34: spit("loaded", "l{\nm:1\n}\n_COMMENT_:remark\nn:2\n"); o << t.N(load, Load)("loaded", true, true, true); break;
      case 35: spit("loaded", "l{\nm:1\n}\n_COMMENT_:remark\nn:2\n"); o << t.N(load, Load)("loaded", true, true, false, true); break;
      case 36: { spit("incl", "i:1\n"); std::istringstream is("_INCLUDE_:incl\n_COMMENT_:remark\nz{\ny:1\n}\n"); o << t.N(get, Get)(is, false, true); break; }
      case 37: { spit("incl", "i:1\n"); const char* x = "_INCLUDE_:incl\n_COMMENT_:remark\nz{\ny:1\n}\n"; std::istringstream is(x), is2(x); o << t.N(get, Get)(is) << all(t) << t.N(get, Get)(is2, true); break; }
      case 30: spit("loaded", "l{\nm:1\n}\n_COMMENT_:remark\nn:2\n"); o << t.N(load, Load)("loaded", false, false, true, true); break;
      case 31: spit("incl", "i:1\n"); spit("loaded", "_INCLUDE_:incl\nn:2\n"); o << t.N(load, Load)("loaded") << t.N(getFilePath, GetFilePath)() << t.N(fileName, FileName)(); break;
      case 32: spit("incl", "i:1\n"); spit("loaded", "_INCLUDE_:incl\nn:2\n"); o << t.N(load, Load)("loaded", true, false) << t.N(load, Load)("missing"); break;
      default: { spit("incl", "i:1\n"); std::istringstream is("_INCLUDE_:incl\n_COMMENT_:remark\nz{\ny:1\n}\n"); FilePath fp("x"); o << t.N(get, Get)(is, true, false, &fp); break; }
    }
    o << all(t); for (auto& l : loose) o << all(*l);
  }
  return o.text();
}
static string lists(Script& in)
{ // the list of subtrees by itself
  Out o; int n = 1 + in.choose(3, "entries"); std::vector<std::unique_ptr<AttributeTree> > t; for (int i = 0; i < n; ++i) t.emplace_back(new AttributeTree(string(1, char('a' + i)).c_str()));
  SubTreeList* l = new SubTreeList(t[0].get()); for (int i = 1; i < n; ++i) l->N(newSubTreeList, NewSubTreeList)(t[size_t(i)].get(), t[size_t(i - 1)].get());
  std::unique_ptr<AttributeTree> e(new AttributeTree("e")); l->N(newSubTreeList, NewSubTreeList)(e.get(), in.choose(2, "after") ? t[0].get() : nullptr);
  for (AttributeTree* c = t[0].get(); c; c = l->next(c)) o << c->getDescription();
  if (in.choose(2, "revert")) { l = l->N(revertOrder, RevertOrder)(); AttributeTree* f = t[0].get(); o << where(l->next(f)); for (auto& x : t) o << where(l->next(x.get())); o << where(l->next(e.get())); }
  l->unlinkParent(); delete l; return o.text();
}
// ---------------------------------------------------------------- declared parameters
static string declared(Script& in)
{
  Out o; static const char* const OPT[] = { "opt", "opt:", "pre,", "" }; static const char* const SH[] = { "", "o", "o:" }; static const char* const DEF[] = { "", "d" };
  const char* op = OPT[in.choose(4, "option")]; const char* sh = SH[in.choose(3, "short option")]; bool prefix = in.choose(2, "prefix"); const char* df = DEF[in.choose(2, "default")];
  GetoptParameter g(op, sh, "help text", prefix); o << g.N(option, Option)() << g.N(shortOption, ShortOption)() << g.N(hasValue, HasValue)() << g.N(help, Help)() << g.N(isPrefixOption, IsPrefixOption)();
  ConfigParameter c(op, sh, "/key", "more help", df); o << c.N(configKey, ConfigKey)() << c.N(hasDefaultValue, HasDefaultValue)() << c.N(defaultValue, DefaultValue)() << c.N(option, Option)() << c.N(hasValue, HasValue)() << c.N(help, Help)();
  return o.text();
}
// ---------------------------------------------------------------- command line
static const char* const WORD[] = { "-f", "--file", "val", "-v", "--set-x=1", "-n", "3", "--", "-u", "0x1f", "two" };
template <typename T> static void number(Out& o, const char* name)
{
  T v = T(77); o << N(paramOpt, ParamOpt)<T>(name, v) << v; v = T(78); o << N(paramOpt, ParamOpt)<T>(String(name), v) << v << N(paramOptDefault, ParamOptDefault)<T>(name, T(5)) << N(paramOptDefault, ParamOptDefault)<T>(String(name), T(5));
  v = T(79); o << N(paramNonOpt, ParamNonOpt)<T>(0, v) << v; v = T(79); o << N(paramNonOpt, ParamNonOpt)<T>(1, v) << v;
}
static string commandLine(Script& in)
{
  Out o; Getopt& g = Getopt::N(instance, Instance)(); o << (&g == &Getopt::instance()) << g.N(isInitialized, IsInitialized)();
  if (in.choose(2, "own or free functions"))
  {
    GetoptParameterList l; l.push_back(GetoptParameter("file:", "f:", "file")); l.push_back(GetoptParameter("verbose", "v", "verbose")); g.N(addParameter, AddParameter)(l);
    g.N(addParameter, AddParameter)(GetoptParameter("num:", "n:", "number")); g.N(addParameter, AddParameter)(GetoptParameter("set-", "", "prefix", true));
  }
  else
  {
    GetoptParameterList l; l.push_back(GetoptParameter("file:", "f:", "file")); l.push_back(GetoptParameter("verbose", "v", "verbose")); N(addParameter, AddParameter)(l); N(addParameter, AddParameter)(GetoptParameter("num:", "n:", "number"));
    N(addParameter, AddParameter)(GetoptParameter("set-", "", "prefix", true));
  }
  int extra = in.choose(4, "extra parameters"); if (extra == 1) g.N(activateExtraCmdParams, ActivateExtraCmdParams)(); if (extra == 2) g.N(activateExtraCmdParams, ActivateExtraCmdParams)("val");
  if (extra == 3) N(activateExtraCmdParams, ActivateExtraCmdParams)();
  int n = in.choose(mc::thorough() ? 4 : 3, "words"); std::vector<string> w(1, "prog"); for (int i = 0; i < n; ++i) w.push_back(WORD[in.choose(11, "word")]); w.push_back("tail"); int tail = in.choose(2, "tail"); if (!tail) w.pop_back();
  std::vector<std::vector<char> > buf; std::vector<char*> argv; for (auto& s : w) { buf.emplace_back(s.begin(), s.end()); buf.back().push_back(0); } for (auto& b : buf) argv.push_back(b.data()); argv.push_back(nullptr); int argc = int(w.size());
  switch (in.choose(7, "initialise"))
  {
    case 0: o << g.N(initialize, Initialize)(argc, argv.data()); break;
    case 1: o << g.N(initialize, Initialize)(argc, argv.data(), true); break;
    case 2: o << g.N(initialize, Initialize)(argc, argv.data(), false); break;
    case 3: o << g.N(initialize, Initialize)(argc, argv.data(), Getopt::eCLC_Cleanup, Getopt::ePRC_Relaxed); break;
    case 4: o << N(initialize, Initialize)(argc, argv.data()); break;
    case 5: o << N(initialize, Initialize)(argc, argv.data(), true); break;
    default: o << N(initialize, Initialize)(argc, argv.data(), Getopt::eCLC_None, Getopt::ePRC_Relaxed); break;
  }
  o << argc; for (int i = 0; i < argc; ++i) o << argv[size_t(i)];
  o << g.N(isInitialized, IsInitialized)() << g.N(programName, ProgramName)() << g.N(extraCmdParamCount, ExtraCmdParamCount)() << N(extraCmdParamCount, ExtraCmdParamCount)() << g.N(paramNonOptCount, ParamNonOptCount)() << N(paramNonOptCount, ParamNonOptCount)();
  for (size_t i = 0; i < g.extraCmdParamCount(); ++i) o << g.N(extraCmdParam, ExtraCmdParam)(i) << N(extraCmdParam, ExtraCmdParam)(i);
  for (size_t i = 0; i < g.paramNonOptCount(); ++i) o << g.N(paramNonOpt, ParamNonOpt)(i) << N(paramNonOpt, ParamNonOpt)(i);
  for (auto name : { "file", "verbose", "num", "f", "none" })
  {
    o << g.N(paramOpt, ParamOpt)(name) << g.N(paramOptPresent, ParamOptPresent)(name) << N(paramOptPresent, ParamOptPresent)(name); string s = "?"; o << N(paramOpt, ParamOpt)<String>(name, s) << s;
  }
  number<int>(o, "num"); number<double>(o, "num"); number<uint16_t>(o, "num");
  static const char* E[] = { "val", "two", "3", nullptr }; int v = -1; o << N(paramOpt, ParamOpt)<int>("num", v, E) << v << N(paramOpt, ParamOpt)<int>(String("num"), v, E) << v << N(paramNonOpt, ParamNonOpt)<int>(0, v, E) << v;
  v = -1; o << N(paramOpt, ParamOpt)<int>("num", v, E, "two") << v << N(paramOpt, ParamOpt)<int>(String("num"), v, E, "two") << v << N(paramNonOpt, ParamNonOpt)<int>(0, v, E, "two") << v;
  o << g.N(paramPrefixOptPresent, ParamPrefixOptPresent)("set-"); for (auto& kv : g.N(paramPrefixOpt, ParamPrefixOpt)("set-")) o << kv.m_key << kv.m_value;
  g.N(printHelp, PrintHelp)(); N(printHelp, PrintHelp)(); N(debugOutCommandLine, DebugOutCommandLine)(argc, argv.data()); o << captured();
  return o.text();
}
// ---------------------------------------------------------------- configuration
struct Seen : ConfigObserver { string s; void valueChanged(const String& k) override { s += k + ";"; } };
static const char* one(String*) { return "one"; } template <typename T> static T one(T*) { return T(1); }
template <typename T> static void value(Out& o, const char* k)
{
  T v = T(); o << N(get, Get)<T>(k, v) << v; v = T(); o << N(get, Get)<T>(String(k), v) << v << N(getDefault, GetDefault)<T>(k, one((T*)nullptr)) << N(getDefault, GetDefault)<T>(String(k), one((T*)nullptr));
}
static string configuration(Script& in)
{
  Out o; ConfigManager& m = ConfigManager::N(instance, Instance)(); o << (&m == &ConfigManager::instance()) << m.N(isInitialized, IsInitialized)(); Seen s, all; m.N(registerObserver, RegisterObserver)(&s, "/n"); m.N(registerObserver, RegisterObserver)(&all);
  ConfigParameterList l; l.push_back(ConfigParameter("num:", "n:", "/n", "number", "12")); l.push_back(ConfigParameter("text:", "t:", "/t", "text")); int how = in.choose(2, "free functions");
  if (how) { N(addParameter, AddParameter)(l); N(addParameter, AddParameter)(ConfigParameter("flag:", "", "/f", "flag", "yes")); } else { m.N(addParameter, AddParameter)(l); m.N(addParameter, AddParameter)(ConfigParameter("flag:", "", "/f", "flag", "yes")); }
  static const char* const TXT[] = { "two", "0x10", "true", "" }; string txt = TXT[in.choose(4, "text")]; string cfg = "n 3\nq { w 4 }\nt " + txt + "\n"; spit("cfg", cfg);
  const char* av[] = { "prog", "-c", "cfg", "-n", "5", nullptr }; int argc = in.choose(2, "option") ? 5 : 3; int file = in.choose(2, "file"); if (!file) argc = 1;
  if (how) o << N(initialize, Initialize)(argc, const_cast<char**>(av)); else { o << Getopt::instance().initialize(argc, const_cast<char**>(av)) << m.N(initialize, Initialize)(); }
  o << m.N(isInitialized, IsInitialized)() << s.s << all.s;
  for (int step = 0; step < (mc::thorough() ? 3 : 2); ++step)
    switch (in.choose(7, "change"))
    {
      case 0: o << m.N(setValue, SetValue)<int>("/n", 40 + step); break;
      case 1: o << m.N(setValue, SetValue)<String>("/u/v", "w"); break;
      case 2: N(setValue, SetValue)<double>("/n", 2.5); break;
      case 3: N(setValue, SetValue)<int>(String("/n"), -1); break;
      case 4: N(setValue, SetValue)("/t", "3"); break;
      case 5: m.N(unregisterObserver, UnregisterObserver)(&s); break;
      default: m.N(unregisterObserver, UnregisterObserver)(&all); break;
    }
  o << s.s << all.s;
  for (auto k : { "/n", "/t", "/f", "/q/w", "/none" })
  {
    value<int>(o, k); value<double>(o, k); value<bool>(o, k); value<String>(o, k); value<uint8_t>(o, k); static const char* E[] = { "one", "two", "3", "four", nullptr };
    int e = -1; o << N(get, Get)<int>(k, e, E) << e << N(get, Get)<int>(String(k), e, E) << e; e = -1; o << N(get, Get)<int>(k, e, E, "3") << e << N(get, Get)<int>(String(k), e, E, "3") << e;
  }
  for (auto q : { "/.*", "/q/(.*)", "/(n|t)" }) { ConfigIterator i = N(find, Find)(q); while (i.next()) o << i.key() << i.value() << i.matchGroup(1); }
  m.N(dump, Dump)(); N(dump, Dump)(); o << captured(); m.unregisterObserver(&s); m.unregisterObserver(&all);
  return o.text();
}
// ---------------------------------------------------------------- lists of values to read
static string valueLists(Script& in)
{
  Out o; static const char* const TXT[] = { "7", "two", "0x1f", "no", "" }; ConfigManager::instance().setValue<String>("/a", TXT[in.choose(5, "a")]); ConfigManager::instance().setValue<String>("/b", TXT[in.choose(5, "b")]);
  static const char* const E[] = { "one", "two", "3", nullptr }; int a = -1, e = -2, f = -4; double b = -3; String s = "?"; bool report = in.choose(2, "cleanup");
  typedef icl_core::config::impl::ConfigValueIface Iface; typedef N(ConfigValue<int>, TConfigValue<int>) VI; typedef N(ConfigValue<double>, TConfigValue<double>) VD; typedef N(ConfigValueDefault<String>, TConfigValueDefault<String>) DS; typedef N(ConfigEnum<int>, TConfigEnum<int>) EI; typedef N(ConfigEnumDefault<int>, TConfigEnumDefault<int>) ED;
  switch (in.choose(4, "list"))
  {
    case 0: { N(ConfigValues, tConfigValues) v = { new VI("/a", a), new VD("/b", b), nullptr }; o << N(get, Get)(v, icl_core::logging::QuietStream::instance()); break; }
    case 1: { N(ConfigValues, tConfigValues) v = { new DS("/none", s, "dflt"), new EI("/a", e, E), nullptr }; o << N(get, Get)(v, icl_core::logging::QuietStream::instance(), true); break; }
    case 2: { VI x("/a", a); DS y("/b", s, "dflt"); EI z("/b", e, E, "3"); N(ConfigValues, tConfigValues) v = { &x, &y, &z, nullptr }; o << N(get, Get)(v, icl_core::logging::QuietStream::instance(), false) << x.key() << x.stringValue() << y.stringValue() << z.stringValue(); break; }
    default: { ED x("/a", e, 2, E); ED y("/none", f, 1, E, "3"); DS z("/b", s, "dflt"); const Iface *p = &x, *q = &y, *r = &z; o << p->get() << q->get() << r->get() << x.stringValue() << y.stringValue() << x.key(); o << q->key(); break; }
  }
  o << a << e << f << s << b << report; return o.text();
}
