// Compatibility names of the plugin framework: the same history under the old and under the current names, each in its own process.
#include "deprecated_child.h"
#include <list>
#include <map>
#include <set>
#include <memory>
#include <boost/filesystem.hpp>
#include <boost/algorithm/string/predicate.hpp>
#include <dlfcn.h>
#include <sys/stat.h>
#include "icl_core_logging/Logging.h"
#include "P01_widget.h"
#include "icl_core_plugin/tPluginManager.h"
#include "icl_core_plugin/tPluginManagerBase.h"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
extern "C" { int verif_live[16]; }
char g_dir[512];
namespace pl = icl_core::plugin;
typedef pl::PluginManager<Widget, g_dir> Manager;
static string libDir() { char b[512]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; string s(b); return s.substr(0, s.rfind('/')); }
static void lib(int kind, const string& to) { string s = libDir() + mc::format("/kind%d.so", kind); unlink(to.c_str()); if (link(s.c_str(), to.c_str()) != 0) boost::filesystem::copy_file(s, to); }
static void prepare()                                                             // what there is to load
{
  pl::Plugin::instance().setActive(false); string d = mc::scratch(); snprintf(g_dir, sizeof g_dir, "%s/plugins", d.c_str());
  for (auto s : { "plugins", "plugins/sub", "more", "more/sub" }) mkdir((d + "/" + s).c_str(), 0755);
  string p = g_dir; lib(0, p + "/one.so"); lib(1, p + "/two.so"); lib(3, p + "/other.so"); lib(4, p + "/noid.so"); lib(7, p + "/null.so"); lib(6, p + "/noload.so"); lib(8, p + "/sub/deep.so"); lib(5, p + "/sub/nobase.so"); lib(8, d + "/more/three.so");
}
class Own : public Widget { public: explicit Own(const string& i) : id(i) { } int kind() const { return 100; } string Identifier() const { return id; } string id; };
static string living() { string r; for (int n : verif_live) r += std::to_string(n) + " "; return r; }
static string who(Widget* w) { return w ? w->Identifier() + "/" + std::to_string(w->kind()) : string("none"); }
static vector<string> sorted(std::list<string> l)                                 // the order of a directory is not specified
{
  vector<string> v(l.begin(), l.end()); std::sort(v.begin(), v.end()); return v;
}
//! what a class derived from the manager can use
class Open : public Manager
{
public:
  Open() { }
  using Manager::initializePlugins; using Manager::loadHandle; using Manager::loadPlugins; using Manager::unloadPlugin; using Manager::closePluginHandle; using Manager::loadPluginInstance; using Manager::clearErrorMessages; using Manager::addErrorMessage;
  using Manager::InitializePlugins; using Manager::LoadHandle; using Manager::LoadPlugins; using Manager::UnloadPlugin; using Manager::ClosePluginHandle; using Manager::LoadPluginInstance; using Manager::ClearErrorMessages; using Manager::AddErrorMessage;
  pl::PluginHandle handle(const string& i) const { auto h = m_plugin_handles.find(i); return h != m_plugin_handles.end() ? h->second : nullptr; }
  vector<string> known() const { vector<string> v; for (auto& h : m_plugin_handles) v.push_back(h.first); for (auto& h : m_loaded_plugins) v.push_back("loaded " + h.first); for (auto& h : m_static_plugins) v.push_back("static " + h.first); return v; }
};
#define N(current, old) current
namespace current { typedef Manager Named;
#include "D05_body.inc"
}
#undef N
#define N(current, old) old
namespace compat { typedef pl::tPluginManager<Widget, g_dir> Named;
#include "D05_body.inc"
}
#undef N
static void types() { SAME_TYPE(pl::PluginManagerBase, pl::tPluginManagerBase); }
namespace run {
static void manager() { vector<int> n{ 4, 10, 10, 10 }; if (mc::thorough()) n.push_back(10); both(current::manager, compat::manager, "manager", n); }
static void derived() { vector<int> n{ 3, 9, 9 }; if (mc::thorough()) n.push_back(9); both(current::derived, compat::derived, "derived", n); }
}
int main(int argc, char** argv)
{
  dep::g_child = prepare;
  return mc::run(argc, argv, { mc::Scenario("manager", run::manager).limit(120), mc::Scenario("derived managers", run::derived).limit(60), mc::Scenario("type names", types) });
}
