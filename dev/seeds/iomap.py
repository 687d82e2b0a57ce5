ID='C12-io-map'
PROPERTY='C12'
NEEDS='two conversions from one type, one of which is unregistered, then a conversion through the other as an intermediate step'
BREAKS='removing one conversion takes the whole list of what the input type converts to, including the entries of other registered conversions'
EDITS=[('lib/Object/Convert.cpp','''            getConvertIoMap()[inputType.hash_code()].erase(outputType.hash_code());
''','''            getConvertIoMap().erase(inputType.hash_code());
''')]
DEMO=r'''
#include <Pothos/Object.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Callable.hpp>
#include <Pothos/Init.hpp>
#include <cstdio>
struct A{int v;}; struct B{int v;}; struct C{int v;}; struct D{int v;};
static B ab(const A &a){B b; b.v = a.v; return b;}
static C ac(const A &a){C b; b.v = a.v; return b;}
static D cd(const C &a){D b; b.v = a.v; return b;}
int main(void)
{
    Pothos::init();
    Pothos::PluginRegistry::addCall("/object/convert/demo/ab", &ab);
    Pothos::PluginRegistry::addCall("/object/convert/demo/ac", &ac);
    Pothos::PluginRegistry::addCall("/object/convert/demo/cd", &cd);
    A a; a.v = 42;
    const Pothos::Object o(a);
    if (not o.canConvert(typeid(D)) or o.convert<D>().v != 42) return 2;
    Pothos::PluginRegistry::remove("/object/convert/demo/ab");
    try
    {
        if (o.convert<D>().v != 42) return 1;
        if (not o.canConvert(typeid(D))) return 1;
    }
    catch (const Pothos::Exception &ex) {printf("%s\n", ex.displayText().c_str()); return 1;}
    return 0;
}
'''
