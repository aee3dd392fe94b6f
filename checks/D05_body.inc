// Included twice, with N(current, old) choosing the spelling.
static void observe(Out& o, Manager& m)
{
  o << m.N(isInitialized, IsInitialized)() << m.N(loadLazy, LoadLazy)() << living() << m.N(pluginPaths, PluginPaths)() << sorted(m.N(errorMessages, ErrorMessages)());
  for (auto i : { "a", "b", "c", "own", "o", "" }) o << m.N(isStaticPlugin, IsStaticPlugin)(i);
}
static string manager(Script& in)
{
  Out o; Manager& m = *Named::N(instance, Instance)(); o << (&m == Manager::N(instance, Instance)()) << (&m == Manager::instance()); Own own("own"), a("a");
  int first = in.choose(4, "first"); if (first & 1) { m.N(addPluginPath, AddPluginPath)(mc::scratch() + "/more"); m.N(addPluginPath, AddPluginPath)(""); }
  if (first & 2) { m.N(addStaticPlugin, AddStaticPlugin)(&own); m.N(addStaticPlugin, AddStaticPlugin)(&a); }
  observe(o, m); std::list<Widget*> made;
  for (int step = 0; step < (mc::thorough() ? 4 : 3); ++step)
  {
    switch (in.choose(10, "operation"))
    {
      case 0: o << m.N(initialize, Initialize)(); break;
      case 1: o << m.N(initialize, Initialize)(false); break;
      case 2: o << m.N(initialize, Initialize)(true, true); break;
      case 3: o << m.N(initialize, Initialize)(false, true); break;
      case 4: o << m.N(availablePlugins, AvailablePlugins)(); break;
      case 5: for (Widget* w : m.N(plugins, Plugins)()) o << who(w); break;
      case 6: for (auto i : { "a", "b", "c", "own", "o", "z", "" }) o << who(m.N(plugin, Plugin)(i)); o << (m.N(plugin, Plugin)("b") == m.N(plugin, Plugin)("b")); break;
      case 7: for (auto i : { "b", "c", "own", "z", "n" }) { made.push_back(m.N(createPluginInstance, CreatePluginInstance)(i)); o << who(made.back()); } break;
      case 8: m.N(addStaticPlugin, AddStaticPlugin)(step & 1 ? &own : &a); break;
      case 9: m.N(removeStaticPlugin, RemoveStaticPlugin)(step & 1 ? "own" : "a"); break;
    }
    observe(o, m);
  }
  for (Widget* w : made) delete w;
  delete &m; o << living(); return o.text();
}
static string derived(Script& in)
{
  Out o; Open m; int first = in.choose(3, "first"); if (first) m.N(initializePlugins, InitializePlugins)(first == 2); observe(o, m); o << m.known();
  string d = mc::scratch();
  for (int step = 0; step < (mc::thorough() ? 3 : 2); ++step)
  {
    switch (in.choose(9, "operation"))
    {
      case 0: m.N(loadHandle, LoadHandle)(d + "/more/three.so"); break;
      case 1: m.N(loadHandle, LoadHandle)(d + "/plugins/noid.so"); break;
      case 2: m.N(loadPlugins, LoadPlugins)(); break;
      case 3: m.N(unloadPlugin, UnloadPlugin)("a"); break;
      case 4: m.N(closePluginHandle, ClosePluginHandle)("b"); break;
      case 5: { Widget* w = m.N(loadPluginInstance, LoadPluginInstance)(m.handle("a"), "called a"); o << who(w); delete w; w = m.N(loadPluginInstance, LoadPluginInstance)(m.handle("n"), "called n"); o << who(w); break; }
      case 6: m.N(clearErrorMessages, ClearErrorMessages)(); break;
      case 7: m.N(addErrorMessage, AddErrorMessage)("wrong"); break;
      case 8: m.N(closePluginHandle, ClosePluginHandle)("c"); m.N(unloadPlugin, UnloadPlugin)("c"); break;
    }
    o << m.known(); observe(o, m);
  }
  return o.text();
}
