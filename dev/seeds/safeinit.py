ID='C08-static-init-unknown'
PROPERTY='C08'
NEEDS='a static initialisation block of a plugin that throws something not derived from std::exception'
BREAKS='the failure leaves safeInit() and, running during static initialisation, terminates the process'
EDITS=[('lib/Plugin/Static.cpp','''    POTHOS_EXCEPTION_TRY
    {
        init();
    }
    POTHOS_EXCEPTION_CATCH(const Exception &ex)
    {
        poco_error_f2(Poco::Logger::get("Pothos.StaticBlock.safeInit"),
        "loading %s, exception %s", name, ex.displayText());
    }
''','''    try
    {
        init();
    }
    catch (const Exception &ex)
    {
        poco_error_f2(Poco::Logger::get("Pothos.StaticBlock.safeInit"),
        "loading %s, exception %s", name, ex.displayText());
    }
    catch (const std::exception &ex)
    {
        poco_error_f2(Poco::Logger::get("Pothos.StaticBlock.safeInit"),
        "loading %s, exception %s", name, std::string(ex.what()));
    }
''')]
DEMO=r'''
#include <Pothos/Plugin/Static.hpp>
#include <Pothos/System/Version.hpp>
#include <stdexcept>
#include <cstdio>
static void a(void) {throw std::runtime_error("a");}
static void b(void) {throw 42;}
int main(void)
{
    try
    {
        Pothos::Detail::safeInit(Pothos::System::getAbiVersion(), "a", &a);
        Pothos::Detail::safeInit(Pothos::System::getAbiVersion(), "b", &b);
    }
    catch (...) {printf("escaped\n"); return 1;}
    return 0;
}
'''
