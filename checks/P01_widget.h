#ifndef P01_WIDGET_H
#define P01_WIDGET_H
#include <cstring>
#include <typeinfo>
#include "icl_core_plugin/Plugin.h"
extern "C" int verif_live[16];          // living plugin objects per kind, in the harness
class Widget
{
public:
  virtual ~Widget() { }
  virtual int kind() const = 0;
  ICL_CORE_PLUGIN_DECLARE_PLUGIN_INTERFACE(Widget)
};
class OtherWidget
{
public:
  virtual ~OtherWidget() { }
  ICL_CORE_PLUGIN_DECLARE_PLUGIN_INTERFACE(OtherWidget)
};
#endif
