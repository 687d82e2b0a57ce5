ID='C19-half-mapped-leak'
PROPERTY='C19'
NEEDS='the second half of a circular buffer cannot be mapped (address space limit, or another thread took the address)'
BREAKS='the clean-up of a circular buffer of which only the first half was mapped returns early: the mapping and the file descriptor stay behind, and enough of them exhaust the limit of open files'
EDITS=[('lib/Framework/SharedBufferUnix.cpp','''        if (mapPtr1 != MAP_FAILED) munmap(mapPtr1, _numBytes);
''','''        if (mapPtr1 == MAP_FAILED) return; //nothing was mapped
        munmap(mapPtr1, _numBytes);
''')]
FLAGS=''
DEMO=r'''
#include <Pothos/Framework.hpp>
#include <Pothos/Exception.hpp>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <dirent.h>
#include <cerrno>
#include <cstdio>
static int calls = 0;
static bool arm = false;
//stand-in for the system call: the second shared mapping at a requested address fails
extern "C" void *mmap(void *a, size_t l, int p, int f, int fd, off_t o)
{
    if (arm and a != nullptr and fd >= 0 and (f & MAP_SHARED) and ++calls % 2 == 0)
    {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    return (void *)syscall(SYS_mmap, a, l, p, f, fd, o);
}
extern "C" void *mmap64(void *a, size_t l, int p, int f, int fd, off_t o)
{
    return mmap(a, l, p, f, fd, o);
}
static int openFds(void)
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d) != nullptr) n++;
    closedir(d);
    return n;
}
static void tryBuffer(void)
{
    calls = 0;
    arm = true;
    try
    {
        auto b = Pothos::SharedBuffer::makeCirc(1 << 20);
    }
    catch (const Pothos::Exception &)
    {
    }
    arm = false;
}
int main(void)
{
    tryBuffer(); //warm up
    const int before = openFds();
    for (int i = 0; i < 10; i++) tryBuffer();
    const int after = openFds();
    std::printf("open files %d -> %d\n", before, after);
    return (after == before)? 0 : 1;
}
'''
