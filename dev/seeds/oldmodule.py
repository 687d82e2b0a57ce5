ID='C13-older-file-tested'
PROPERTY='C13'
NEEDS='a module file is replaced by an older one (a downgrade, a restored copy) after it was tested: its modification time goes back'
BREAKS='safeLoad loads the file into the process without the test in another process, although it is not the file that was tested'
EDITS=[('lib/Plugin/ModuleSafeLoad.cpp','''(modTime == cachedModTime)''','''(modTime <= cachedModTime)''')]
FLAGS=''
DEMO=r'''
#include <Pothos/Plugin.hpp>
#include <Pothos/Exception.hpp>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>
//load the module in a process of its own, and tell how often the module was loaded so far
static int loads(const std::string &path, const std::string &log)
{
    const pid_t pid = fork();
    if (pid == 0)
    {
        int rc = 0;
        try
        {
            Pothos::PluginModule::safeLoad(path);
        }
        catch (const Pothos::Exception &ex)
        {
            std::printf("%s\n", ex.displayText().c_str());
            rc = 1;
        }
        _exit(rc);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    if (not WIFEXITED(status) or WEXITSTATUS(status) != 0) return -1;
    std::ifstream in(log);
    int n = 0;
    std::string line;
    while (std::getline(in, line)) n++;
    return n;
}
int main(void)
{
    const std::string home(std::getenv("HOME")), path = home + "/module.so", log = home + "/module.log";
    const std::string dirs = "mkdir -p " + home + "/.config/Pothos " + home + "/.local/share";
    if (std::system(dirs.c_str()) != 0) return 3;
    setenv("POTHOS_ROOT", "/repo/_build/root", 1);
    std::ofstream(home + "/module.cpp") << "#include <cstdio>\n__attribute__((constructor)) static void loaded(void)"
        "{if (FILE *f = std::fopen(\"" << log << "\", \"a\")) {std::fputs(\"loaded\\n\", f); std::fclose(f);}}\n";
    const std::string build = "g++ -fPIC -shared " + home + "/module.cpp -o " + path;
    if (std::system(build.c_str()) != 0) return 3;
    const int first = loads(path, log);     //in the test process and in this one
    const int second = loads(path, log);    //tested: only in this one
    std::printf("loads %d %d\n", first, second);
    if (first != 2 or second != 3) return 2;
    //another file takes its place, which is an hour older
    struct stat st;
    if (stat(path.c_str(), &st) != 0) return 3;
    struct timespec ts[2] = {st.st_atim, st.st_mtim};
    ts[1].tv_sec -= 3600;
    if (utimensat(AT_FDCWD, path.c_str(), ts, 0) != 0) return 3;
    const int third = loads(path, log);
    std::printf("loads of the older file %d\n", third - second);
    return third == second + 2? 0 : 1;
}
'''
