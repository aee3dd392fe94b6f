// Plugins for P01; KIND selects which.
#include "P01_widget.h"
namespace {
#if KIND == 3
class Gadget : public OtherWidget { public: ICL_CORE_PLUGIN_DECLARE_PLUGIN };
#else
class Gadget : public Widget
{
public:
  Gadget() { ++verif_live[KIND]; }
  ~Gadget() { --verif_live[KIND]; }
  int kind() const { return KIND; }
  ICL_CORE_PLUGIN_DECLARE_PLUGIN
};
#endif
}
#if KIND == 0 || KIND == 2
ICL_CORE_PLUGIN_REGISTER_PLUGIN(Widget, Gadget, "a")
#elif KIND == 1
ICL_CORE_PLUGIN_REGISTER_PLUGIN(Widget, Gadget, "b")
#elif KIND == 3
ICL_CORE_PLUGIN_REGISTER_PLUGIN(OtherWidget, Gadget, "o")
#elif KIND == 8
ICL_CORE_PLUGIN_REGISTER_PLUGIN(Widget, Gadget, "c")
#else
std::string Gadget::Identifier() const { return "x"; }
# if KIND != 4
extern "C" const char* identifier() { return KIND == 5 ? "p" : KIND == 6 ? "n" : "z"; }
# endif
# if KIND != 5
extern "C" const char* basetype() { return typeid(Widget).name(); }
# endif
# if KIND != 6
extern "C" Widget* load_plugin() { return KIND == 7 ? nullptr : new Gadget; }
# endif
#endif
