ID='C04-failed-trylock'
PROPERTY='C04'
NEEDS='an attempt to write-lock while a reader is inside'
BREAKS='a failed attempt overwrites the reader count, so the lock is corrupted after the reader leaves'
EDITS=[('include/Pothos/Util/SpinLockRW.hpp','''    unsigned expected = UNLOCKED;
    return _lock.compare_exchange_weak(expected, WRITER_LOCK, std::memory_order_acq_rel);
''','''    return _lock.exchange(WRITER_LOCK, std::memory_order_acq_rel) == UNLOCKED;
''')]
DEMO=r'''
#include <Pothos/Util/SpinLockRW.hpp>
#include <cstdio>
int main(void)
{
    Pothos::Util::SpinLockRW l;
    l.lock_shared();
    for (int i = 0; i < 100; i++) if (l.try_lock()) {printf("two owners\n"); return 1;}
    l.unlock_shared();
    bool got = false;
    for (int k = 0; k < 1000 and not got; k++) got = l.try_lock();
    if (not got) {printf("writer locked out\n"); return 1;}
    if (l.try_lock_shared()) {printf("reader let in\n"); return 1;}
    l.unlock();
    return l.try_lock_shared()?0:1;
}
'''
