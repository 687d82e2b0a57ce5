def m(n, *a, **k):
    MUTANTS.append((n, 'C19', [tuple(a[i:i+3]) for i in range(0, len(a), 3)], k.get("e", C)))
SB='lib/Framework/SharedBufferUnix.cpp'; MM='lib/Framework/MemoryMappedBufferContainer.cpp'; FL='lib/Util/FileLockUnix.cpp'; TC='lib/Framework/ThreadConfigUnix.cpp'; NI='lib/System/NumaInfoLinux.cpp'
E_={'e': Q}
# circular buffer
m('c19-err-nocleanup', SB, "        const int errnoSave = errno;\n        this->cleanup();\n", "        const int errnoSave = errno;\n")
m('c19-err-errno-late', SB, "        const int errnoSave = errno;\n        this->cleanup();\n", "        this->cleanup();\n        const int errnoSave = errno;\n")
m('c19-cleanup-nofd', SB, "            close(tmpFd);\n        }\n", "        }\n")
m('c19-cleanup-fd-gt', SB, "        if (tmpFd >= 0)\n", "        if (tmpFd < 0)\n")
m('c19-cleanup-no0', SB, "        if (mapPtr0 != MAP_FAILED) munmap(mapPtr0, _numBytes);\n", "")
m('c19-cleanup-inverted', SB, "        if (mapPtr1 != MAP_FAILED) munmap(mapPtr1, _numBytes);", "        if (mapPtr1 == MAP_FAILED) munmap(mapPtr1, _numBytes);")
m('c19-cleanup-2x', SB, "munmap(mapPtr1, _numBytes)", "munmap(mapPtr1, _numBytes*2)")
m('c19-cleanup-dup', SB, "munmap(mapPtr1, _numBytes)", "munmap(mapPtr0, _numBytes)")
m('c19-dtor-none', SB, "        this->cleanup();\n    }\n\n    size_t getAddress", "    }\n\n    size_t getAddress")
m('c19-nohint0', SB, '''    if (mapPtr0 != virtualAddr2X) this->errorOut("mmap(0) address taken");\n''', "")
m('c19-nohint1', SB, '''    if (mapPtr1 != (void *)(size_t(virtualAddr2X) + numBytes)) this->errorOut("mmap(1) address taken");\n''', "")
m('c19-private1', SB, '''        numBytes,
        PROT_READ | PROT_WRITE,
        MAP_SHARED,
        tmpFd, off_t(0));
    if (mapPtr1 ==''', '''        numBytes,
        PROT_READ | PROT_WRITE,
        MAP_PRIVATE,
        tmpFd, off_t(0));
    if (mapPtr1 ==''')
m('c19-offset1', SB, '''        tmpFd, off_t(0));
    if (mapPtr1 ==''', '''        tmpFd, off_t(numBytes));
    if (mapPtr1 ==''')
m('c19-len2x', SB, '''        virtualAddr2X,
        numBytes,
''','''        virtualAddr2X,
        numBytes*2,
''')
m('c19-trunc-short', SB, "ftruncate(tmpFd, numBytes*2)", "ftruncate(tmpFd, numBytes/2)")
m('c19-trunc-1x', SB, "ftruncate(tmpFd, numBytes*2)", "ftruncate(tmpFd, numBytes)", e=Q)
m('c19-range-1x', SB, '''        nullptr,
        numBytes*2,
''', '''        nullptr,
        numBytes,
''', SB, "munmap(virtualAddr2X, numBytes*2)", "munmap(virtualAddr2X, numBytes)")
m('c19-no-unmap', SB, '''    ret = munmap(virtualAddr2X, numBytes*2);
    if (ret != 0) this->errorOut("munmap(2x)");
''', "")
m('c19-unmap-half', SB, "munmap(virtualAddr2X, numBytes*2)", "munmap(virtualAddr2X, numBytes)")
m('c19-unmap-twice', SB, '''    if (ret != 0) this->errorOut("munmap(2x)");
''', '''    if (ret != 0) this->errorOut("munmap(2x)");
    munmap(virtualAddr2X, numBytes*2);
''')
m('c19-throw-direct', SB, '''    if (mapPtr1 == MAP_FAILED) this->errorOut("mmap(1)");''', '''    if (mapPtr1 == MAP_FAILED) throw Pothos::SharedBufferError("mmap(1)", strerror(errno));''')
m('c19-del-scalar', SB, "delete[] _mem;", "delete _mem;")
m('c19-gen-nodelete', SB, "        delete[] _mem;\n", "")
m('c19-numa-nofree', SB, "if (_mem != nullptr) numa_free(_mem, _len);", "if (_mem == nullptr) numa_free(_mem, _len);")
m('c19-numa-free', SB, "numa_free(_mem, _len);", "free(_mem);")
# refactors
m('c19-q-fdhelper', SB, "        if (tmpFd >= 0)\n        {\n            close(tmpFd);\n        }\n", "        if (tmpFd != -1) close(tmpFd);\n", **E_)
m('c19-q-order', SB, '''        if (mapPtr1 != MAP_FAILED) munmap(mapPtr1, _numBytes);
        mapPtr1 = MAP_FAILED;

        if (mapPtr0 != MAP_FAILED) munmap(mapPtr0, _numBytes);
        mapPtr0 = MAP_FAILED;
''', '''        this->unmap(mapPtr0);
        this->unmap(mapPtr1);
''', SB, "    void cleanup(void)\n", '''    void unmap(void *&ptr)
    {
        if (ptr == MAP_FAILED) return;
        munmap(ptr, _numBytes);
        ptr = MAP_FAILED;
    }

    void cleanup(void)
''', **E_)
m('c19-q-second', SB, '''    mapPtr1 = mmap(
        (void *)(size_t(virtualAddr2X) + numBytes),
''', '''    char *const secondHalf = (char *)mapPtr0 + _numBytes;
    mapPtr1 = mmap(
        secondHalf,
''', SB, "if (mapPtr1 != (void *)(size_t(virtualAddr2X) + numBytes))", "if (mapPtr1 != secondHalf)", **E_)
m('c19-q-nested', SB, '''    if (mapPtr1 == MAP_FAILED) this->errorOut("mmap(1)");
    if (mapPtr1 != (void *)(size_t(virtualAddr2X) + numBytes)) this->errorOut("mmap(1) address taken");
''', '''    const bool ok = mapPtr1 != MAP_FAILED;
    if (not ok or mapPtr1 != (void *)(size_t(virtualAddr2X) + numBytes))
    {
        this->errorOut(ok? "mmap(1) address taken" : "mmap(1)");
    }
''', **E_)
m('c19-q-local', SB, '''    mapPtr0 = mmap(
        virtualAddr2X,
        numBytes,
        PROT_READ | PROT_WRITE,
        MAP_SHARED,
        tmpFd, off_t(0));
    if (mapPtr0 == MAP_FAILED)''', '''    void *const first = mmap(
        virtualAddr2X,
        numBytes,
        PROT_WRITE | PROT_READ,
        MAP_SHARED,
        tmpFd, 0);
    mapPtr0 = first;
    if (first == MAP_FAILED)''', **E_)
m('c19-q-mapfixed', SB, "        MAP_SHARED,\n        tmpFd, off_t(0));\n    if (mapPtr0 ==", "        MAP_SHARED | MAP_FIXED,\n        tmpFd, off_t(0));\n    if (mapPtr0 ==", SB, '''    if (mapPtr0 != virtualAddr2X) this->errorOut("mmap(0) address taken");\n''', "", **E_)
m('c19-q-maphalf', SB, '''    mapPtr0 = mmap(
        virtualAddr2X,
        numBytes,
        PROT_READ | PROT_WRITE,
        MAP_SHARED,
        tmpFd, off_t(0));
''', '''    mapPtr0 = this->mapHalf(virtualAddr2X);
''', SB, '''    mapPtr1 = mmap(
        (void *)(size_t(virtualAddr2X) + numBytes),
        numBytes,
        PROT_READ | PROT_WRITE,
        MAP_SHARED,
        tmpFd, off_t(0));
''', '''    mapPtr1 = this->mapHalf((char *)virtualAddr2X + numBytes);
''', SB, "    void cleanup(void)\n", '''    void *mapHalf(void *where)
    {
        return mmap(where, _numBytes, PROT_READ | PROT_WRITE, MAP_SHARED, tmpFd, off_t(0));
    }

    void cleanup(void)
''', **E_)
m('c19-q-vector', SB, "        _mem = new char[numBytes + ALIGNMENT_BYTES - 1];\n", "        const size_t total = numBytes + ALIGNMENT_BYTES - 1;\n        char *const mem = new char[total];\n        _mem = mem;\n", **E_)
m('c19-q-strerror', SB, '''Poco::format("errno %d - %s", errnoSave, std::string(strerror(errnoSave))));''', '''"errno " + std::to_string(errnoSave) + " - " + strerror(errnoSave));''', **E_)
# mapped file
m('c19-mm-noclose-err', MM, '''            logErrnoOnFailure(::close(fd), "close");\n            throw''', '''            throw''')
m('c19-mm-noclose', MM, '''        //the mapping does not need the file descriptor anymore
        logErrnoOnFailure(::close(fd), "close");
''', '')
m('c19-mm-close-throws', MM, '''        //the mapping does not need the file descriptor anymore
        logErrnoOnFailure(::close(fd), "close");
''', '''        throwErrnoOnFailure<Pothos::IOException>(::close(fd));
''')
m('c19-mm-errno-late', MM, '''            const int mmapErrno = errno;
            logErrnoOnFailure(::close(fd), "close");
''', '''            logErrnoOnFailure(::close(fd), "close");
            const int mmapErrno = errno;
''')
m('c19-mm-code', MM, "ErrnoException<ExcType>(errno)", "ErrnoException<ExcType>(code)")
m('c19-mm-size-after', MM, '''        _length = Poco::File(filepath).getSize();

        int fd = 0;
        throwErrnoOnFailure<Pothos::OpenFileException>(
            (fd = ::open(filepath.c_str(), openFlags)));
''', '''        int fd = 0;
        throwErrnoOnFailure<Pothos::OpenFileException>(
            (fd = ::open(filepath.c_str(), openFlags)));

        _length = Poco::File(filepath).getSize();
''')
m('c19-mm-nomunmap', MM, '''        logErrnoOnFailure(
            ::munmap(_buffer, _length),
            "munmap");
''', '''        if (_length == 0) logErrnoOnFailure(
            ::munmap(_buffer, _length),
            "munmap");
''')
m('c19-mm-swapped', MM, "if(!_buffer || (MAP_FAILED == _buffer))", "if(!_buffer)")
m('c19-q-mm-raii', MM, '''        _buffer = ::mmap(nullptr, _length, mmapProt, mmapFlags, fd, 0);
        if(!_buffer || (MAP_FAILED == _buffer))
        {
            const int mmapErrno = errno;
            logErrnoOnFailure(::close(fd), "close");
            throw Pothos::IOException("mmap", ::strerror(mmapErrno));
        }

        //the mapping does not need the file descriptor anymore
        logErrnoOnFailure(::close(fd), "close");
''', '''        _buffer = ::mmap(nullptr, _length, mmapProt, mmapFlags, fd, 0);
        const int mmapErrno = errno;

        //the mapping does not need the file descriptor anymore
        logErrnoOnFailure(::close(fd), "close");

        if(_buffer == nullptr || _buffer == MAP_FAILED)
        {
            throw Pothos::IOException("mmap", ::strerror(mmapErrno));
        }
''', **E_)
m('c19-q-mm-open', MM, '''        int fd = 0;
        throwErrnoOnFailure<Pothos::OpenFileException>(
            (fd = ::open(filepath.c_str(), openFlags)));
''', '''        const int fd = ::open(filepath.c_str(), openFlags);
        if(fd == -1) throw Pothos::Util::ErrnoException<Pothos::OpenFileException>(errno);
''', **E_)
m('c19-q-mm-struct', MM, '''        int fd = 0;
        throwErrnoOnFailure<Pothos::OpenFileException>(
            (fd = ::open(filepath.c_str(), openFlags)));
''', '''        const int fd = openFile(filepath, openFlags);
''', MM, "class MemoryMappedBufferContainer::Impl\n", '''static int openFile(const std::string &filepath, const int openFlags)
{
    const int fd = ::open(filepath.c_str(), openFlags);
    throwErrnoOnFailure<Pothos::OpenFileException>(fd);
    return fd;
}

class MemoryMappedBufferContainer::Impl
''', **E_)
m('c19-q-mm-guard', MM, '''        _buffer = ::mmap(nullptr, _length, mmapProt, mmapFlags, fd, 0);
        if(!_buffer || (MAP_FAILED == _buffer))
        {
            const int mmapErrno = errno;
            logErrnoOnFailure(::close(fd), "close");
            throw Pothos::IOException("mmap", ::strerror(mmapErrno));
        }

        //the mapping does not need the file descriptor anymore
        logErrnoOnFailure(::close(fd), "close");
''', '''        const FdGuard guard{fd};
        _buffer = ::mmap(nullptr, _length, mmapProt, mmapFlags, guard.fd, 0);
        if(!_buffer || (MAP_FAILED == _buffer))
        {
            throw Pothos::IOException("mmap", ::strerror(errno));
        }
''', MM, "class MemoryMappedBufferContainer::Impl\n", '''struct FdGuard
{
    int fd;
    ~FdGuard()
    {
        logErrnoOnFailure(::close(fd), "close");
    }
};

class MemoryMappedBufferContainer::Impl
''', **E_)
# file lock
m('c19-fl-leak', FL, "        delete _impl;\n        throw", "        throw")
m('c19-fl-errno', FL, "strerror(errnoSave)", "strerror(_impl->fd)")
m('c19-fl-noclose', FL, "    close(_impl->fd);\n", "")
m('c19-fl-closeif', FL, "    close(_impl->fd);\n", "    if (_impl->locked) close(_impl->fd);\n")
m('c19-fl-nodelete', FL, "    close(_impl->fd);\n    delete _impl;\n", "    close(_impl->fd);\n")
m('c19-fl-lock-order', FL, '''    int ret = flock(_impl->fd, LOCK_EX);
''', '''    _impl->locked = true;
    int ret = flock(_impl->fd, LOCK_EX);
''')
m('c19-fl-lock-ignored', FL, '''    if (ret != 0) throw Pothos::RuntimeException("Pothos::Util::FileLock::lock()", strerror(errno));
    _impl->locked = true;
''', '''    _impl->locked = (ret == 0);
''')
m('c19-fl-noremember', FL, "    _impl->locked = false;\n}", "}")
m('c19-fl-nb', FL, "LOCK_EX)", "LOCK_EX | LOCK_NB)")
m('c19-fl-sh', FL, "LOCK_EX)", "LOCK_SH)")
m('c19-fl-inverted', FL, "    if (_impl->locked) return;\n", "    if (not _impl->locked) return;\n")
m('c19-fl-ret', FL, "    int ret = flock(_impl->fd, LOCK_UN);\n    if (ret != 0) throw", "    int ret = flock(_impl->fd, LOCK_UN);\n    if (ret == 1) throw")
m('c19-q-fl-lock', FL, '''    int ret = flock(_impl->fd, LOCK_EX);
    if (ret != 0) throw Pothos::RuntimeException("Pothos::Util::FileLock::lock()", strerror(errno));
    _impl->locked = true;
''', '''    if (flock(_impl->fd, LOCK_EX) == 0) _impl->locked = true;
    else throw Pothos::RuntimeException("Pothos::Util::FileLock::lock()", strerror(errno));
''', **E_)
m('c19-q-fl-helper', FL, '''    int ret = flock(_impl->fd, LOCK_EX);
    if (ret != 0) throw Pothos::RuntimeException("Pothos::Util::FileLock::lock()", strerror(errno));
    _impl->locked = true;
''', '''    apply(_impl->fd, LOCK_EX, "Pothos::Util::FileLock::lock()");
    _impl->locked = true;
''', FL, '''    int ret = flock(_impl->fd, LOCK_UN);
    if (ret != 0) throw Pothos::RuntimeException("Pothos::Util::FileLock::unlock()", strerror(errno));
''', '''    apply(_impl->fd, LOCK_UN, "Pothos::Util::FileLock::unlock()");
''', FL, '''void Pothos::Util::FileLock::lock(void)
''', '''static void apply(const int fd, const int operation, const char *what)
{
    if (flock(fd, operation) != 0) throw Pothos::RuntimeException(what, strerror(errno));
}

void Pothos::Util::FileLock::lock(void)
''', **E_)
m('c19-q-fl-guard', FL, '''    if (_impl->locked) return;
    int ret = flock(_impl->fd, LOCK_EX);
    if (ret != 0) throw Pothos::RuntimeException("Pothos::Util::FileLock::lock()", strerror(errno));
    _impl->locked = true;
''', '''    auto &impl = *_impl;
    if (not impl.locked)
    {
        const int ret = flock(impl.fd, LOCK_EX);
        if (ret != 0) throw Pothos::RuntimeException("Pothos::Util::FileLock::lock()", strerror(errno));
        impl.locked = true;
    }
''', **E_)
m('c19-q-fl-unique', FL, '''    _impl(new Impl())
{
    _impl->fd = open(''', '''    _impl(nullptr)
{
    std::unique_ptr<Impl> impl(new Impl());
    impl->fd = open(''', FL, '''    if (_impl->fd == -1)
    {
        const int errnoSave = errno;
        delete _impl;
        throw Pothos::RuntimeException("Pothos::Util::FileLock("+filePath+")", strerror(errnoSave));
    }
}''', '''    if (impl->fd == -1) throw Pothos::RuntimeException("Pothos::Util::FileLock("+filePath+")", strerror(errno));
    _impl = impl.release();
}''', FL, "struct Pothos::Util::FileLock::Impl\n", "#include <memory>\nstruct Pothos::Util::FileLock::Impl\n", **E_)
# others
m('c19-cpu-nofree', TC, "    if (sched_setaffinity(0, size, cpusetp) != 0) errorMsg = strerror(errno);\n", "    if (sched_setaffinity(0, size, cpusetp) != 0) return strerror(errno);\n")
m('c19-numa-mask', TC, "    numa_free_nodemask(mask);\n", "    if (affinity.empty()) numa_free_nodemask(mask);\n")
m('c19-cpu-errno', TC, "    if (sched_setaffinity(0, size, cpusetp) != 0) errorMsg = strerror(errno);\n\n    CPU_FREE(cpusetp);\n", "    const int ret = sched_setaffinity(0, size, cpusetp);\n    CPU_FREE(cpusetp);\n    if (ret != 0) errorMsg = strerror(-ret);\n")
m('c19-prio-err', TC, "    if (sched_setscheduler(0, policy, &param) != 0) return strerror(errno);\n", "    const int ret = pthread_setschedparam(pthread_self(), policy, &param);\n    if (ret != 0) return strerror(errno);\n")
m('c19-q-prio', TC, "    if (sched_setscheduler(0, policy, &param) != 0) return strerror(errno);\n", "    const int ret = pthread_setschedparam(pthread_self(), policy, &param);\n    if (ret != 0) return strerror(ret);\n", **E_)
m('c19-ni-nofree', NI, "        numa_free_nodemask(bm);\n", "")
m('c19-ni-continue', NI, "        if (numa_node_to_cpus(node, bm) == 0)\n", "        if (numa_node_to_cpus(node, bm) != 0) continue;\n")
