// makes the compiler emit every operation of the spin lock classes, so that they are analysed even where the library does not use them
#include <Pothos/Util/SpinLock.hpp>
#include <Pothos/Util/SpinLockRW.hpp>
#include <mutex>

template class Pothos::Util::SharedLock<Pothos::Util::SpinLockRW>;

bool useSpinLocks(void)
{
    Pothos::Util::SpinLock a;
    a.lock();
    a.unlock();
    bool r = a.try_lock();
    Pothos::Util::SpinLockRW b;
    b.lock();
    b.unlock();
    b.lock_shared();
    b.unlock_shared();
    r = b.try_lock() or r;
    r = b.try_lock_shared() or r;
    Pothos::Util::SharedLock<Pothos::Util::SpinLockRW> g(b);
    Pothos::Util::SpinLockRW::SharedLock h(b);
    return r;
}
