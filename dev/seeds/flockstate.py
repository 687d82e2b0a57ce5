ID='C19-lock-remembered-early'
PROPERTY='C19'
NEEDS='flock() fails while a file lock is being taken (interrupted by a signal, no locks available), and the caller tries again'
BREAKS='the lock is remembered as held before the system granted it: the second attempt returns at once without the lock, and two processes are in the critical section'
EDITS=[('lib/Util/FileLockUnix.cpp','''    int ret = flock(_impl->fd, LOCK_EX);
    if (ret != 0) throw Pothos::RuntimeException("Pothos::Util::FileLock::lock()", strerror(errno));
    _impl->locked = true;
''','''    _impl->locked = true;
    int ret = flock(_impl->fd, LOCK_EX);
    if (ret != 0) throw Pothos::RuntimeException("Pothos::Util::FileLock::lock()", strerror(errno));
''')]
FLAGS=''
DEMO=r'''
#include <Pothos/Util/FileLock.hpp>
#include <Pothos/Exception.hpp>
#include <sys/file.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <string>
static int failures = 0;
//stand-in for the system call: interrupted by a signal the first time
extern "C" int flock(int fd, int op) noexcept
{
    if ((op & LOCK_EX) and failures == 0)
    {
        failures++;
        errno = EINTR;
        return -1;
    }
    return int(syscall(SYS_flock, fd, op));
}
int main(void)
{
    const std::string path = std::string(std::getenv("HOME")) + "/demo.lock";
    Pothos::Util::FileLock first(path), second(path);
    bool threw = false;
    try
    {
        first.lock();
    }
    catch (const Pothos::Exception &)
    {
        threw = true;
    }
    if (not threw) return std::printf("not interrupted\n"), 2;
    first.lock(); //try again
    //the lock must be held now: another open file cannot have it
    const int fd = open((path).c_str(), 0);
    const int ret = int(syscall(SYS_flock, fd, LOCK_EX | LOCK_NB));
    std::printf("second owner: %s\n", ret == 0? "yes" : "no");
    first.unlock();
    return ret == 0? 1 : 0;
}
'''
