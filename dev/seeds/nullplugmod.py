ID='C13-null-object-unowned'
PROPERTY='C13'
NEEDS='a module registers a plugin whose object is null (a path that only marks something); the module is unloaded later'
BREAKS='the plugin does not belong to the module: it stays registered when the module is unloaded, and does not tell where it comes from'
EDITS=[('lib/Plugin/Registry.cpp','''        plugin = Plugin(plugin.getPath(), plugin.getObject(), getActiveModuleLoading());
''','''        if (plugin.getObject()) plugin = Plugin(plugin.getPath(), plugin.getObject(), getActiveModuleLoading());
''')]
FLAGS='-ldl'
DEMO=r'''
#include <Pothos/Plugin.hpp>
#include <Pothos/Exception.hpp>
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>
int main(void)
{
    const std::string home(std::getenv("HOME")), path = home + "/module.so";
    std::ofstream(home + "/module.cpp") << "#include <Pothos/Plugin.hpp>\n#include <Pothos/Object.hpp>\n"
        "pothos_static_block(demoModuleMark){Pothos::PluginRegistry::add(Pothos::Plugin(\"/demo/mark\", Pothos::Object()));}\n"
        "pothos_static_block(demoModuleVal){Pothos::PluginRegistry::add(\"/demo/value\", 42);}\n";
    const std::string build = "g++ -std=c++14 -fPIC -shared -I/repo/_build/root/include -I/repo/include " + home + "/module.cpp -o " + path + " -L/repo/_build/root/lib -lPothos";
    if (std::system(build.c_str()) != 0) return 3;
    {
        Pothos::PluginModule module(path);
        if (Pothos::PluginRegistry::get("/demo/value").getModule().getFilePath() != path) return 2;
        const auto owner = Pothos::PluginRegistry::get("/demo/mark").getModule().getFilePath();
        std::printf("owner: '%s'\n", owner.c_str());
    }
    //the module is gone, and so are its plugins
    if (Pothos::PluginRegistry::exists("/demo/value")) return 2;
    const bool left = Pothos::PluginRegistry::exists("/demo/mark");
    std::printf("left over: %d\n", int(left));
    return left? 1 : 0;
}
'''
