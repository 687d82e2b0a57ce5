def m(n, p, *a, **k):
    MUTANTS.append((n, p, [tuple(a[i:i+3]) for i in range(0, len(a), 3)], k.get("e", C)))
SL='include/Pothos/Util/SpinLock.hpp'; SR='include/Pothos/Util/SpinLockRW.hpp'; IPH='include/Pothos/Framework/InputPortImpl.hpp'; OPH='include/Pothos/Framework/OutputPortImpl.hpp'
IP='lib/Framework/InputPort.cpp'; AI='lib/Framework/ActorInterface.hpp'
# C04
m('c04b-ctor-locked','C04',SL,"    this->unlock();\n}\n\ninline bool Pothos::Util::SpinLock::try_lock","    _lock.test_and_set();\n}\n\ninline bool Pothos::Util::SpinLock::try_lock")
m('c04b-lock-if','C04',SL,"    while (not this->try_lock()){}","    if (not this->try_lock()) this->try_lock();")
m('c04b-lock-inv','C04',SL,"    while (not this->try_lock()){}","    while (this->try_lock()){}")
m('c04b-unlock-set','C04',SL,"    _lock.clear(std::memory_order_release);","    _lock.test_and_set(std::memory_order_release);")
m('c04b-rw-shared-plus2','C04',SR,"expected, expected+1, std","expected, expected+2, std")
m('c04b-rw-shared-relaxed','C04',SR,"compare_exchange_weak(expected, expected+1, std::memory_order_acq_rel)","compare_exchange_weak(expected, expected+1, std::memory_order_relaxed)")
m('c04b-rw-shared-rel','C04',SR,"compare_exchange_weak(expected, expected+1, std::memory_order_acq_rel)","compare_exchange_weak(expected, expected+1, std::memory_order_release)")
m('c04b-rw-unlocksh-relaxed','C04',SR,"fetch_sub(1, std::memory_order_release)","fetch_sub(1, std::memory_order_relaxed)")
m('c04b-rw-unlock-relaxed','C04',SR,"_lock.store(UNLOCKED, std::memory_order_release)","_lock.store(UNLOCKED, std::memory_order_relaxed)")
m('c04b-rw-unlock-dec','C04',SR,"_lock.store(UNLOCKED, std::memory_order_release)","_lock.fetch_sub(1, std::memory_order_release)")
m('c04b-rw-trylock-load','C04',SR,"    unsigned expected = UNLOCKED;\n","    unsigned expected = _lock.load();\n")
m('c04b-rw-trylock-notwriter','C04',SR,"    unsigned expected = UNLOCKED;\n    return","    unsigned expected = _lock.load();\n    if (expected > 1) return false;\n    return")
m('c04b-rw-const','C04',SR,"enum : unsigned {WRITER_LOCK = unsigned(~0), UNLOCKED = 0};","enum : unsigned {WRITER_LOCK = 1, UNLOCKED = 0};")
m('c04b-shared-guard','C04',SR,"        _mutex.unlock_shared();","        _mutex.unlock();")
m('c04b-shared-guard2','C04',SR,"        _mutex.lock_shared();","        _mutex.try_lock_shared();")
m('c04b-lockshared-bounded','C04',SR,"    while (not this->try_lock_shared())\n    {\n        if (++count > 1024)","    while (not this->try_lock_shared())\n    {\n        if (count > 1000000) return;\n        if (++count > 1024)")
m('c04b-lock-shared','C04',SR,"    while (not this->try_lock())\n    {","    while (not this->try_lock_shared())\n    {")
m('c04b-q-acq','C04',SR,"compare_exchange_weak(expected, WRITER_LOCK, std::memory_order_acq_rel)","compare_exchange_strong(expected, WRITER_LOCK, std::memory_order_acquire, std::memory_order_relaxed)",e=Q)
m('c04b-q-seq','C04',SL,"_lock.clear(std::memory_order_release)","_lock.clear()",e=Q)
m('c04b-q-for','C04',SL,"    while (not this->try_lock()){}","    for (;;)\n    {\n        if (this->try_lock()) break;\n    }",e=Q)
m('c04b-q-dowhile','C04',SL,"    while (not this->try_lock()){}","    bool got = false;\n    do\n    {\n        got = this->try_lock();\n    } while (not got);",e=Q)
m('c04b-q-inline-tas','C04',SL,"    while (not this->try_lock()){}","    while (_lock.test_and_set(std::memory_order_acquire)){}",e=Q)
m('c04b-q-rw-local','C04',SR,"    unsigned expected = _lock.load(std::memory_order_acquire);\n    return expected != WRITER_LOCK and _lock.compare","    unsigned expected = _lock.load(std::memory_order_relaxed);\n    if (expected == WRITER_LOCK) return false;\n    const unsigned next = expected + 1;\n    return _lock.compare",SR,"(expected, expected+1, std","(expected, next, std",e=Q)
m('c04b-q-rw-loop','C04',SR,"    size_t count(0);\n    while (not this->try_lock_shared())\n    {\n        if (++count > 1024) std::this_thread::yield();\n    }","    for (size_t count = 0; not this->try_lock_shared(); count++)\n    {\n        if (count >= 1024) std::this_thread::yield();\n    }",e=Q)
m('c04b-q-exchange','C04',SR,"_lock.store(UNLOCKED, std::memory_order_release)","_lock.exchange(UNLOCKED, std::memory_order_acq_rel)",e=Q)
m('c04b-q-minus','C04',SR,"_lock.fetch_sub(1, std::memory_order_release)","_lock--",e=Q)
m('c04b-q-ctorinit','C04',SR,"inline Pothos::Util::SpinLockRW::SpinLockRW(void)\n{\n    this->unlock();\n}","inline Pothos::Util::SpinLockRW::SpinLockRW(void):\n    _lock(UNLOCKED)\n{\n    return;\n}",e=Q)
# C03
m('c03b-pop-twosections','C03',IPH,"    std::lock_guard<Util::SpinLock> lock(_asyncMessagesLock);\n    if (_asyncMessages.empty()) return Pothos::Object();\n    auto msg","    if (this->asyncMessagesEmpty()) return Pothos::Object();\n    std::lock_guard<Util::SpinLock> lock(_asyncMessagesLock);\n    auto msg")
m('c03b-pop-unlockearly','C03',IPH,"    std::lock_guard<Util::SpinLock> lock(_asyncMessagesLock);\n    if (_asyncMessages.empty()) return Pothos::Object();\n    auto msg = std::move(_asyncMessages.front().first);\n","    std::unique_lock<Util::SpinLock> lock(_asyncMessagesLock);\n    if (_asyncMessages.empty()) return Pothos::Object();\n    auto msg = std::move(_asyncMessages.front().first);\n    lock.unlock();\n")
m('c03b-inline-nolock','C03',IPH,"    std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);\n    if (_inputInlineMessages.full())","    if (_inputInlineMessages.full())")
m('c03b-inline-capfirst','C03',IPH,"    std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);\n    if (_inputInlineMessages.full()) _inputInlineMessages.set_capacity(_inputInlineMessages.capacity()*2);\n","    if (_inputInlineMessages.full()) _inputInlineMessages.set_capacity(_inputInlineMessages.capacity()*2);\n    std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);\n")
m('c03b-clear-otherlock','C03',IPH,"    std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);\n    _inputInlineMessages.clear();","    std::lock_guard<Util::SpinLock> lock(_asyncMessagesLock);\n    _inputInlineMessages.clear();")
m('c03b-front-scoped','C03',IPH,"    std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);\n    while (not _inputInlineMessages.empty())\n    {\n        _inlineMessages.push_back(std::move(_inputInlineMessages.front()));\n        _inlineMessages.back().adjust(1, this->dtype().size());\n        _inputInlineMessages.pop_front();\n    }\n    buff","    {\n    std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);\n    while (not _inputInlineMessages.empty())\n    {\n        _inlineMessages.push_back(std::move(_inputInlineMessages.front()));\n        _inlineMessages.back().adjust(1, this->dtype().size());\n        _inputInlineMessages.pop_front();\n    }\n    }\n    buff")
m('c03b-require-nolock','C03',IPH,"    std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);\n    _bufferAccumulator.require","    _bufferAccumulator.require")
m('c03b-accclear-nolock','C03',IPH,"    std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);\n    _bufferAccumulator = BufferAccumulator();","    _bufferAccumulator = BufferAccumulator();")
m('c03b-bm-empty-unlocked','C03',OPH,"    std::lock_guard<Util::SpinLock> lock(_bufferManagerLock);\n    return not _bufferManager or","    if (not _bufferManager or _bufferManager->empty()) return true;\n    std::lock_guard<Util::SpinLock> lock(_bufferManagerLock);\n    return not _bufferManager or")
m('c03b-bm-front-tokenlock','C03',OPH,"    std::lock_guard<Util::SpinLock> lock(_bufferManagerLock);\n    buff","    std::lock_guard<Util::SpinLock> lock(_tokenManagerLock);\n    buff")
m('c03b-tok-two','C03',OPH,"    std::lock_guard<Util::SpinLock> lock(_tokenManagerLock);\n    if (_tokenManager->empty()) return Pothos::BufferChunk();\n","    if (this->tokenManagerEmpty()) return Pothos::BufferChunk();\n    std::lock_guard<Util::SpinLock> lock(_tokenManagerLock);\n")
m('c03b-tok-pop-after','C03',OPH,"    std::lock_guard<Util::SpinLock> lock(_tokenManagerLock);\n    if (_tokenManager->empty()) return Pothos::BufferChunk();\n    auto tok = _tokenManager->front();\n    _tokenManager->pop(0);\n    return tok;","    Pothos::BufferChunk tok;\n    {\n        std::lock_guard<Util::SpinLock> lock(_tokenManagerLock);\n        if (_tokenManager->empty()) return Pothos::BufferChunk();\n        tok = _tokenManager->front();\n    }\n    this->tokenManagerPop(0);\n    return tok;")
m('c03b-slot-unlock-grow','C03',IP,"        _slotCalls.emplace_back(args, token);\n    }\n","    }\n    {\n        std::lock_guard<Util::SpinLock> lock(_slotCallsLock);\n        _slotCalls.emplace_back(args, token);\n    }\n")
m('c03b-pop-labels-outside','C03',IP,"    std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);\n\n    if (numBytes > _bufferAccumulator","    std::unique_lock<Util::SpinLock> lock(_bufferAccumulatorLock);\n\n    if (numBytes > _bufferAccumulator",IP,"    _bufferAccumulator.pop(numBytes);\n","    _bufferAccumulator.pop(numBytes);\n    lock.unlock();\n")
m('c03b-lp-bytes-early','C03',IP,"        std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);\n\n        const size_t currentBytes = _bufferAccumulator.getTotalBytesAvailable();\n","        const size_t currentBytes = _bufferAccumulator.getTotalBytesAvailable();\n        std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);\n\n")
m('c03b-q-unique','C03',IPH,"    std::lock_guard<Util::SpinLock> lock(_asyncMessagesLock);\n    if (_asyncMessages.empty()) return Pothos::Object();\n    auto msg","    std::unique_lock<Util::SpinLock> lock(_asyncMessagesLock);\n    if (_asyncMessages.empty()) return Pothos::Object();\n    auto msg",e=Q)
m('c03b-q-manual','C03',IPH,"    std::lock_guard<Util::SpinLock> lock(_asyncMessagesLock);\n    return _asyncMessages.empty();","    _asyncMessagesLock.lock();\n    const bool none = _asyncMessages.empty();\n    _asyncMessagesLock.unlock();\n    return none;",e=Q)
m('c03b-q-ref','C03',IPH,"    std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);\n    _bufferAccumulator.require(numBytes);","    auto &accumulator = _bufferAccumulator;\n    std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);\n    accumulator.require(numBytes);",e=Q)
m('c03b-q-helper','C03',IP,"bool Pothos::InputPort::slotCallsEmpty(void)\n{\n    std::lock_guard<Util::SpinLock> lock(_slotCallsLock);\n    return _slotCalls.empty();","template <typename Q>\nstatic bool emptyLocked(Pothos::Util::SpinLock &mutex, const Q &queue)\n{\n    std::lock_guard<Pothos::Util::SpinLock> lock(mutex);\n    return queue.empty();\n}\n\nbool Pothos::InputPort::slotCallsEmpty(void)\n{\n    return emptyLocked(_slotCallsLock, _slotCalls);",e=Q)
m('c03b-q-count','C03',IP,"    for (size_t i = 0; i < _inputInlineMessages.size(); i++)\n    {\n        _inputInlineMessages[i].index -= numBytes;\n    }","    const size_t numLabels = _inputInlineMessages.size();\n    for (size_t i = 0; i < numLabels; i++)\n    {\n        auto &label = _inputInlineMessages[i];\n        label.index -= numBytes;\n    }",e=Q)
m('c03b-q-if','C03',OPH,"    return not _bufferManager or _bufferManager->empty();","    if (not _bufferManager) return true;\n    return _bufferManager->empty();",e=Q)
m('c03b-q-scoped','C03',OPH,"    std::lock_guard<Util::SpinLock> lock(_tokenManagerLock);\n    if (_tokenManager->empty()) return Pothos::BufferChunk();\n    auto tok = _tokenManager->front();\n    _tokenManager->pop(0);\n    return tok;","    Pothos::BufferChunk tok;\n    {\n        std::lock_guard<Util::SpinLock> lock(_tokenManagerLock);\n        if (not _tokenManager->empty())\n        {\n            tok = _tokenManager->front();\n            _tokenManager->pop(0);\n        }\n    }\n    return tok;",e=Q)
# C02 refactors
m('c02b-q-notifyall','C02',AI,"        _acquireCond.notify_one();\n","        _acquireCond.notify_all();\n",e=Q)
m('c02b-q-always','C02',AI,"    if (_aquireWaiting.load(std::memory_order_acquire))\n    {\n        _acquireCond.notify_one();\n    }","    _acquireCond.notify_one();",e=Q)
m('c02b-q-ready','C02',AI,"        if (_inExternalCall()) return false;\n        return not _changeFlagged.test_and_set(std::memory_order_acquire);","        return not _inExternalCall() and not _changeFlagged.test_and_set(std::memory_order_acquire);",e=Q)
m('c02b-q-acquire','C02',AI,"    if (_workerThreadAcquireWait(waitEnabled))\n    {\n        if (_extCallLock.try_lock()) return true; //lock out external calls\n        this->flagInternalChange(); //or busy in a call, re-flag the change\n    }\n    return false;","    if (not _workerThreadAcquireWait(waitEnabled)) return false;\n    const bool locked = _extCallLock.try_lock();\n    if (not locked) this->flagInternalChange();\n    return locked;",e=Q)
m('c02b-q-dec','C02',AI,"    _externalAcquired--;\n","    _externalAcquired.fetch_sub(1);\n",e=Q)
m('c02b-q-flagfirst','C02',AI,"    _extCallLock.unlock();\n    this->flagInternalChange();\n    _acquireCond.notify_all();","    this->flagInternalChange();\n    _extCallLock.unlock();\n    _acquireCond.notify_all();",e=Q)
m('c02b-q-helper','C02',IP,"    assert(_actor != nullptr);\n    _actor->flagExternalChange();\n}\n\nbool Pothos::InputPort::slotCallsEmpty","    auto *actor = _actor;\n    assert(actor != nullptr);\n    actor->flagExternalChange();\n}\n\nbool Pothos::InputPort::slotCallsEmpty",e=Q)
m('c02b-flag-lost','C02',AI,"        _aquireWaiting.store(false, std::memory_order_relaxed);\n        return rdy;","        _aquireWaiting.store(false, std::memory_order_relaxed);\n        return rdy and waitEnabled and _waitModeEnabled;")
m('c02b-wait-nopred','C02',AI,"        if (isReady()) return true; //first check without locking\n","        isReady(); //first check without locking\n")
m('c02b-never-waiting','C02',AI,"        _aquireWaiting.store(true, std::memory_order_relaxed);","        _aquireWaiting.store(false, std::memory_order_relaxed);",e=Q) # bounded wait of 1 ms remains
m('c02b-slot-noflag','C02',IP,"        _slotCalls.emplace_back(args, token);\n    }\n\n    assert(_actor != nullptr);\n    _actor->flagExternalChange();","        _slotCalls.emplace_back(args, token);\n    }\n\n    assert(_actor != nullptr);\n    _actor->wakeNoChange();")
m('c02b-slot-wasempty','C02',IP,"        _slotCalls.emplace_back(args, token);\n    }\n\n    assert(_actor != nullptr);\n    _actor->flagExternalChange();","        _slotCalls.emplace_back(args, token);\n        if (_slotCalls.size() > 1) return;\n    }\n\n    assert(_actor != nullptr);\n    _actor->flagExternalChange();")
m('c02b-lp-onlybuff','C02',IP,"    }\n\n    assert(_actor != nullptr);\n    _actor->flagExternalChange();\n}\n\n#include","        if (postedBuffers.empty()) return;\n    }\n\n    assert(_actor != nullptr);\n    _actor->flagExternalChange();\n}\n\n#include")
