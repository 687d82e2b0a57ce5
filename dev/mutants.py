"""(name, properties, [(file, old, new)], expected 'caught'|'quiet')"""
AI = 'lib/Framework/ActorInterface.hpp'
WA = 'lib/Framework/WorkerActor.cpp'
IP = 'lib/Framework/InputPort.cpp'
OP = 'lib/Framework/OutputPort.cpp'
SL = 'include/Pothos/Util/SpinLock.hpp'
SR = 'include/Pothos/Util/SpinLockRW.hpp'
C, Q = 'caught', 'quiet'
V = C
RD='include/Pothos/Util/RingDeque.hpp'
OQH='include/Pothos/Util/OrderedQueue.hpp'
BA='lib/Framework/BufferAccumulator.cpp'
MUTANTS = [
    ('c04-trylock-polarity', 'C04', [(SL, 'return not _lock.test_and_set(std::memory_order_acquire);', 'return _lock.test_and_set(std::memory_order_acquire);')], C),
    ('c04-relaxed', 'C04', [(SL, '_lock.clear(std::memory_order_release)', '_lock.clear(std::memory_order_relaxed)')], C),
    ('c04-rw-noguard', 'C04', [(SR, 'return expected != WRITER_LOCK and _lock', 'return _lock')], C),
    ('c04-rw-cas-order', 'C04', [(SR, 'compare_exchange_weak(expected, WRITER_LOCK, std::memory_order_acq_rel)', 'compare_exchange_weak(expected, WRITER_LOCK, std::memory_order_relaxed)')], C),
    ('c04-rw-plain', 'C04', [(SR, 'return _lock.compare_exchange_weak(expected, WRITER_LOCK, std::memory_order_acq_rel);', 'if (_lock.load() != expected) return false; _lock.store(WRITER_LOCK); return true;')], C),
    ('c04-rw-unlock-shared', 'C04', [(SR, '_lock.fetch_sub(1, std::memory_order_release)', '_lock.store(UNLOCKED, std::memory_order_release)')], C),
    ('c04-rw-lock-bounded', 'C04', [(SR, '''    while (not this->try_lock())
    {
        if (++count > 1024) std::this_thread::yield();''', '''    while (not this->try_lock())
    {
        if (++count > 1024) return;''')], C),
    ('c04-refactor-loop', 'C04', [(SR, '''    while (not this->try_lock())
    {
        if (++count > 1024) std::this_thread::yield();
    }''', '''    for (;;)
    {
        const bool got = this->try_lock();
        if (got) break;
        count++;
        if (count > 1024) std::this_thread::yield();
    }''')], Q),
    ('c04-refactor-if', 'C04', [(SR, 'return expected != WRITER_LOCK and _lock.compare_exchange_weak(expected, expected+1, std::memory_order_acq_rel);',
      'if (expected == WRITER_LOCK) return false;\n    const unsigned next = expected + 1;\n    const bool ok = _lock.compare_exchange_strong(expected, next, std::memory_order_acq_rel);\n    return ok;')], Q),
    ('c02-flag-before-push', 'C02', [(IP, '        _slotCalls.emplace_back(args, token);\n', '        _actor->flagExternalChange();\n        _slotCalls.emplace_back(args, token);\n'),
        (IP, '''    assert(_actor != nullptr);
    _actor->flagExternalChange();
}

bool Pothos::InputPort::slotCallsEmpty''', '''}

bool Pothos::InputPort::slotCallsEmpty''')], C),
    ('c02-noreflag', 'C02', [(AI, 'this->flagInternalChange(); //or busy', '//or busy')], C),
    ('c02-notify-first', 'C02', [(AI, '''    _changeFlagged.clear(std::memory_order_release);

    //wake a blocked thread to process the change
    if (_aquireWaiting.load(std::memory_order_acquire))
    {
        _acquireCond.notify_one();
    }''', '''    if (_aquireWaiting.load(std::memory_order_acquire))
    {
        _acquireCond.notify_one();
    }
    _changeFlagged.clear(std::memory_order_release);''')], C),
    ('c02-release-noflag', 'C02', [(AI, '''    _extCallLock.unlock();
    this->flagInternalChange();''', '''    _extCallLock.unlock();''')], C),
    ('c02-counter', 'C02', [(AI, '    _externalAcquired--;\n', '')], C),
    ('c02-wait-forever', 'C02', [(AI, 'bool rdy = _acquireCond.wait_for(lock, std::chrono::milliseconds(1), isReady);', 'bool rdy = true; _acquireCond.wait(lock, isReady);')], C),
    ('c02-activity', 'C02', [(WA, '    if (inputWorkEvents != 0)\n', '    if (inputWorkEvents > 1)\n')], C),
    ('c02-activity2', 'C02', [(WA, '        outputWorkEvents += port._workEvents;', '        if (port._pendingElements) outputWorkEvents += port._workEvents;')], C),
    ('c02-refactor-bool', 'C02', [(WA, '    if (inputWorkEvents != 0)\n', '    const bool any = inputWorkEvents > 0;\n    if (any)\n')], Q),
    ('c02-refactor-accum', 'C02', [(WA, '        inputWorkEvents += port._workEvents;', '        inputWorkEvents = inputWorkEvents + port._workEvents;')], Q),
    ('c03-empty', 'C03', [(IP, '    std::lock_guard<Util::SpinLock> lock(_slotCallsLock);\n    return', '    return')], C),
    ('c03-wronglock', 'C03', [(IP, '    std::lock_guard<Util::SpinLock> lock(_slotCallsLock);\n    return', '    std::lock_guard<Util::SpinLock> lock(_asyncMessagesLock);\n    return')], C),
    ('c03-bind', 'C03', [(OP, 'this, &_tokenManagerLock', 'this, &_bufferManagerLock')], C),
    ('c03-peek', 'C03', [('include/Pothos/Framework/InputPortImpl.hpp', '    std::lock_guard<Util::SpinLock> lock(_asyncMessagesLock);\n    if (_asyncMessages.empty()) return Pothos::Object();\n    return', '    return')], C),
    ('c03-stats', 'C03', [(WA, 'std::lock_guard<Util::SpinLock> lockM(port._asyncMessagesLock);', '')], C),
    ('c03-split', 'C03', [(IP, '''        if (enableMove)
        {
''', '''        }
        {
        std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);
        if (enableMove)
        {
'''), (IP, 'const size_t currentBytes', 'currentBytes'), (IP, '''    {
        std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);

''', '''    size_t currentBytes;
    {
        std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);

''')], C),
    ('c03-labels-after', 'C03', [(IP, '''    std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);

    if (numBytes >''', '''    std::unique_lock<Util::SpinLock> lock(_bufferAccumulatorLock);

    if (numBytes >'''), (IP, '    //adjust enqueued inline messages for new offset', '    lock.unlock();')], C),
    ('c03-refactor', 'C03', [(IP, '''    std::lock_guard<Util::SpinLock> lock(_bufferAccumulatorLock);

    if (numBytes >''', '''    std::unique_lock<Util::SpinLock> lock(_bufferAccumulatorLock);

    if (numBytes >'''), (IP, '''    _workEvents++;
}''', '''    lock.unlock();
    _workEvents++;
}''')], Q),
]
RP='lib/Remote/RemoteProxy.cpp'; RH='lib/Remote/RemoteProxyHandle.cpp'; SH='lib/Remote/ServerHandler.cpp'
ERR='''    //check for an error
    auto errorMsgIt = reply.find("errorMsg");
    if (errorMsgIt != reply.end()) throw Pothos::ProxyCompareError(
        "RemoteProxyEnvironment::compareTo()", errorMsgIt->second.extract<std::string>());
'''
MUTANTS += [
    ('c16-nolock', 'C16', [(RP, '            lock.lock();\n            isBlocking = false;\n            lock.unlock();', '            isBlocking = false;')], C),
    ('c16-notify', 'C16', [(RP, '''        tidToReply[replyTid] = replyArgs;
        lock.unlock();
        isCond.notify_all();''', '''        tidToReply[replyTid] = replyArgs;
        lock.unlock();
        isCond.notify_one();''')], C),
    ('c16-nonotify', 'C16', [(RP, '''        if (replyTid == tid)
        {
            lock.unlock();
            isCond.notify_all();''', '''        if (replyTid == tid)
        {
            lock.unlock();''')], C),
    ('c16-drop', 'C16', [(RP, 'tidToReply[replyTid] = replyArgs;', 'if (connectionActive) tidToReply[replyTid] = replyArgs;')], C),
    ('c16-noerr', 'C16', [(RH, ERR, '')], C),
    ('c16-key', 'C16', [(SH, 'reqArgs.at("otherID")', 'reqArgs.at("other")')], C),
    ('c16-reskey', 'C16', [(SH, 'replyArgs["result"] = Pothos::Object(proxy.hashCode());', 'replyArgs["hash"] = Pothos::Object(proxy.hashCode());')], C),
    ('c16-message', 'C16', [(RH, '    if (messageIt != reply.end()) throw Pothos::ProxyExceptionMessage(messageIt->second.extract<std::string>());', '')], C),
    ('c16-done', 'C16', [(SH, 'removeObjectAtId(reqArgs.at("handleID"));', 'removeObjectAtId(reqArgs.at("handleID"));\n            done = true;')], C),
    ('c16-noremove', 'C16', [(SH, 'removeObjectAtId(reqArgs.at("handleID"));', '')], C),
    ('c16-stdonly', 'C16', [(SH, '    POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)\n    {\n        replyArgs["errorMsg"]', '    catch(...){throw;}} catch(const Pothos::Exception &ex)\n    {\n        replyArgs["errorMsg"]')], C),
    ('c16-noerrreply', 'C16', [(SH, 'replyArgs["errorMsg"] = Pothos::Object(ex.displayText());', 'replyArgs["error"] = Pothos::Object(ex.displayText());')], C),
    ('c16-oslock', 'C16', [(RP, 'std::lock_guard<std::mutex> lock(osMutex);', '')], C),
    ('c16-claim', 'C16', [(RP, '        isBlocking = true;\n        lock.unlock();', '        lock.unlock();\n        isBlocking = true;')], C),
    ('c16-r-helper', 'C16', [(RH, ERR, '    throwOnError(reply);\n'), (RH, 'RemoteProxyHandle::RemoteProxyHandle(std', '''static void throwOnError(const Pothos::ObjectKwargs &r)
{
    if (r.count("errorMsg") != 0) throw Pothos::ProxyCompareError("RemoteProxyEnvironment::compareTo()", r.at("errorMsg").extract<std::string>());
}
RemoteProxyHandle::RemoteProxyHandle(std''')], Q),
    ('c16-r-wait', 'C16', [(RP, '''        if (isBlocking)
        {
            isCond.wait(lock);
            continue; //reply may be available, return to loop start
        }''', '''        const bool other = isBlocking;
        if (other)
        {
            isCond.wait(lock);
            continue;
        }''')], Q),
    ('c16-r-send', 'C16', [(SH, 'replyArgs["result"] = Pothos::Object(proxy.hashCode());', 'const size_t hc = proxy.hashCode();\n            replyArgs.emplace("result", Pothos::Object(hc));')], Q),
    ('c16-r-handler', 'C16', [(SH, '            const auto &proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();\n            replyArgs["result"] = Pothos::Object(proxy.hashCode());', '            handleHash(reqArgs, replyArgs);'),
       (SH, 'bool Pothos::RemoteHandler::runHandlerOnce', '''static void handleHash(const Pothos::ObjectKwargs &req, Pothos::ObjectKwargs &rep)
{
    const auto obj = getObjectAtId(req.at("handleID"));
    rep["result"] = Pothos::Object(obj.extract<Pothos::Proxy>().hashCode());
}
bool Pothos::RemoteHandler::runHandlerOnce''')], Q),
]
MB='include/Pothos/Framework/ManagedBuffer.hpp'; BCH='include/Pothos/Framework/BufferChunk.hpp'; BC='lib/Framework/BufferChunk.cpp'; OB='lib/Object/Object.cpp'; BA='lib/Framework/BufferAccumulator.cpp'
MUTANTS += [
    ('c06-old-assign', 'C06', [(OB, '''    auto old = _impl;
    _impl = rhs._impl;
    incr(_impl);
    decr(old);''', '''    decr(_impl);
    _impl = rhs._impl;
    incr(_impl);''')], C),
    ('c06-old-move', 'C06', [(OB, '''    auto old = _impl;
    _impl = rhs._impl;
    rhs._impl = nullptr;
    decr(old);''', '''    decr(_impl);
    _impl = rhs._impl;
    rhs._impl = nullptr;''')], C),
    ('c06-move-noclear', 'C06', [('include/Pothos/Object/Object.hpp', '    obj._impl = nullptr;', '')], C),
    ('c06-mb-copy-noincr', 'C06', [(MB, '''    _impl(impl)
{
    if (_impl != nullptr) _impl->incr();''', '''    _impl(impl)
{''')], C),
    ('c06-relaxed-decr', 'C06', [(MB, 'fetch_sub(1, std::memory_order_release)', 'fetch_sub(1, std::memory_order_relaxed)')], C),
    ('c06-nofence', 'C06', [(MB, '            std::atomic_thread_fence(std::memory_order_acquire);\n', '')], C),
    ('c06-zero', 'C06', [(MB, 'std::memory_order_release) == 1)', 'std::memory_order_release) == 0)')], C),
    ('c06-borrow', 'C06', [(BA, '    mb._impl = nullptr;\n', '')], C),
    ('c06-reset', 'C06', [(MB, '''    if (_impl != nullptr) _impl->decr();
    _impl = nullptr;''', '''    if (_impl != nullptr and not this->unique()) _impl->decr();
    _impl = nullptr;''')], C),
    ('c06-chunk-order', 'C06', [(BCH, '''    _decrNextBuffers();
    address = std::move(other.address);''', '''    address = std::move(other.address);'''), (BCH, '''    _nextBuffers = std::move(other._nextBuffers);
    other''', '''    _decrNextBuffers();
    _nextBuffers = std::move(other._nextBuffers);
    other''')], C),
    ('c06-chunk-nozero', 'C06', [(BCH, '    other._nextBuffers = 0;\n', '')], C),
    ('c06-chunk-clear', 'C06', [(BCH, '''    _decrNextBuffers();
    address = 0;''', '''    address = 0;''')], C),
    ('c06-chunk-uar', 'C06', [(BC, '''        next = mb->nextBuffer;
        mb->decr();''', '''        mb->decr();
        next = mb->nextBuffer;''')], C),
    ('c06-chunk-count', 'C06', [(BC, '''        _nextBuffers++;
        mb->incr();''', '''        mb->incr();
        if (lengthRemain > 1) _nextBuffers++;''')], C),
    ('c06-unique', 'C06', [(MB, 'counter.load(std::memory_order_acquire) == 1', 'counter.load(std::memory_order_relaxed) == 1')], C),
    ('c06-r-swap', 'C06', [(OB, '''    auto old = _impl;
    _impl = rhs._impl;
    incr(_impl);
    decr(old);''', '''    Object tmp(rhs);
    std::swap(_impl, tmp._impl);''')], Q),
    ('c06-r-guard', 'C06', [(OB, '''    auto old = _impl;
    _impl = rhs._impl;
    incr(_impl);
    decr(old);''', '''    if (this == &rhs) return *this;
    incr(rhs._impl);
    auto *old = _impl;
    _impl = rhs._impl;
    decr(old);''')], Q),
    ('c06-r-mb', 'C06', [(MB, '''    auto old = _impl;
    _impl = obj._impl;
    obj._impl = nullptr;
    if (old != nullptr) old->decr();''', '''    std::swap(_impl, obj._impl);
    obj.reset();''')], Q),
    ('c06-r-acqrel', 'C06', [(MB, 'fetch_sub(1, std::memory_order_release)', 'fetch_sub(1, std::memory_order_acq_rel)'), (MB, '            std::atomic_thread_fence(std::memory_order_acquire);\n', '')], Q),
    ('c06-r-predec', 'C06', [(MB, 'if (counter.fetch_sub(1, std::memory_order_release) == 1)', 'if (--counter == 0)')], Q),
    ('c06-r-chunk', 'C06', [(BCH, '''    _decrNextBuffers();
    address = 0;
    length = 0;
    dtype = Pothos::DType();
    _managedBuffer.reset();
    _nextBuffers = 0;''', '''    *this = BufferChunk();''')], Q),
    ('c06-r-loop', 'C06', [(BC, '''    while (_nextBuffers != 0)
    {
        mb = next;
        assert(mb != nullptr);
        //store next before possible deletion by decr()
        next = mb->nextBuffer;
        mb->decr();
        _nextBuffers--;
    }''', '''    for (; _nextBuffers != 0; _nextBuffers--)
    {
        auto cur = next;
        next = cur->nextBuffer;
        cur->decr();
    }''')], Q),
    ('c07-frontidx', 'C07', [(RD, '    _frontIndex--;\n    _numElements++;', '    _numElements++;')], V),
    ('c07-cap', 'C07', [(RD, 'return _numElements == _capacity;', 'return _numElements == _mask+1;')], V),
    ('c07-dealloc', 'C07', [(RD, '    this->clear();\n    _allocator.deallocate(_container, _mask+1);\n    _allocator =', '    this->clear();\n    _allocator.deallocate(_container, _capacity);\n    _allocator =')], V),
    ('c07-moveN', 'C07', [(RD, '    other._numElements = 0;\n    other._capacity = 0;\n    other._container = nullptr;\n    return *this;', '    other._capacity = 0;\n    other._container = nullptr;\n    return *this;')], V),
    ('c07-moveP', 'C07', [(RD, '    other._container = nullptr;\n}', '}')], V),
    ('c07-noclear', 'C07', [(RD, '    if (_container == nullptr) return;\n    this->clear();', '    if (_container == nullptr) return;')], V),
    ('c07-setcap', 'C07', [(RD, 'if (_numElements > capacity) return;', '')], V),
    ('c07-setcap2', 'C07', [(RD, 'newRing.push_back(std::move(this->front()));\n        this->pop_front();', 'newRing.push_back(std::move(this->back()));\n        this->pop_back();')], V),
    ('c07-copyfront', 'C07', [(RD, '        this->push_back(other[i]);\n    }\n    return', '        this->push_front(other[i]);\n    }\n    return')], V),
    ('c07-mask', 'C07', [(RD, '_mask(Detail::nextPow2(capacity)-1)', '_mask(capacity-1)')], V),
    ('c07-popback', 'C07', [(RD, '    this->back().~T();\n    _numElements--;', '    _numElements--;\n    this->back().~T();')], V),
    ('c07-selfassign', 'C07', [(RD, '    if (this == &other) return *this;\n', '')], V),
    ('c07-oqwrap', 'C07', [(OQH, '++_indexToAck == _pushedElems.size()', '++_indexToAck > _pushedElems.size()')], V),
    ('c07-oqflag', 'C07', [(OQH, '        _pushedElems[_indexToAck].second = false;\n', '')], V),
    ('c07-oqif', 'C07', [(OQH, 'while (_pushedElems[_indexToAck].second)', 'if (_pushedElems[_indexToAck].second)')], V),
    ('c07-oqorder', 'C07', [(OQH, 'if (index == _indexToAck)', 'if (index == _indexToAck or _readyElems.empty())')], V),
    ('c07-full', 'C07', [(BA, '        bnext.length = 0;\n        if (queue.full()) queue.set_capacity(queue.size()*2);', '        bnext.length = 0;')], V),
    ('c07-dummy', 'C07', [(BA, '    if (queue.empty()) queue.push_front(BufferChunk());\n}\n\n/***********************************************************************\n * BufferAccumulator Require', '}\n\n/***********************************************************************\n * BufferAccumulator Require')], V),
    ('c07-bytes', 'C07', [(BA, '            b.address += b.length;\n            b.length = 0;', '            b.address += b.length;')], V),
    ('c07-merge', 'C07', [(BA, 'if (b.address == fEnd or b.getAlias() == fEnd)', 'if (b.address >= fEnd)')], V),
    ('c07-pop', 'C07', [(BA, '            queue.pop_front();\n        }\n    }\n\n    //clear the pool', '        }\n    }\n\n    //clear the pool')], V),
    ('c07-bytesavail', 'C07', [(BA, '    _bytesAvailable = 0;\n', '')], V),
    ('c07-lenlost', 'C07', [(BA, 'b.getManagedBuffer() == f.getManagedBuffer() and b.length == 0', 'b.getManagedBuffer() == f.getManagedBuffer()')], V),
    ('c07-inlmsg', 'C07', [('include/Pothos/Framework/InputPortImpl.hpp', 'if (_inputInlineMessages.full()) _inputInlineMessages.set_capacity(_inputInlineMessages.capacity()*2);', '')], V),
    ('c07-labres', 'C07', [('lib/Framework/InputPort.cpp', 'if (_inputInlineMessages.capacity() < requiredLabelSize) _inputInlineMessages.set_capacity(requiredLabelSize);', '')], V),
    ('c07-labres2', 'C07', [('lib/Framework/InputPort.cpp', 'const size_t requiredLabelSize = _inputInlineMessages.size() + postedLabels.size();', 'const size_t requiredLabelSize = postedLabels.size();')], V),
    ('c07-peek', 'C07', [('include/Pothos/Framework/InputPortImpl.hpp', '    if (_asyncMessages.empty()) return Pothos::Object();\n    return _asyncMessages.front', '    return _asyncMessages.front')], V),
    ('c07-r-while', 'C07', [(RD, '    for (size_t i = 0; i < other.size(); i++)\n    {\n        this->push_back(other[i]);\n    }\n    return', '    const size_t num = other.size();\n    size_t i = 0;\n    while (i != num)\n    {\n        this->push_back(other[i]);\n        ++i;\n    }\n    return')], Q),
    ('c07-r-swap', 'C07', [(RD, """    this->clear();
    _allocator.deallocate(_container, _mask+1);
    _allocator = std::move(other._allocator);
    _mask = std::move(other._mask);
    _capacity = std::move(other._capacity);
    _frontIndex = std::move(other._frontIndex);
    _numElements = std::move(other._numElements);
    _container = std::move(other._container);
    other._numElements = 0;
    other._capacity = 0;
    other._container = nullptr;
""", """    std::swap(_allocator, other._allocator);
    std::swap(_mask, other._mask);
    std::swap(_capacity, other._capacity);
    std::swap(_frontIndex, other._frontIndex);
    std::swap(_numElements, other._numElements);
    std::swap(_container, other._container);
""")], Q),
    ('c07-r-idx', 'C07', [(RD, '    _frontIndex--;\n    _numElements++;', '    _frontIndex = (_frontIndex - 1) & _mask;\n    _numElements += 1;')], Q),
    ('c07-r-oq', 'C07', [(OQH, '        if (++_indexToAck == _pushedElems.size()) _indexToAck = 0;', '        _indexToAck++;\n        if (_indexToAck == _pushedElems.size())\n        {\n            _indexToAck = 0;\n        }')], Q),
    ('c07-r-oq2', 'C07', [(OQH, '        if (++_indexToAck == _pushedElems.size()) _indexToAck = 0;', '        _indexToAck = (_indexToAck + 1) % _pushedElems.size();')], Q),
    ('c07-r-pop', 'C07', [(BA, '        queue[1].address -= queue.front().length;\n        queue[1].length += queue.front().length;\n', '        const auto rest = queue.front().length;\n        queue[1].length += rest;\n        queue[1].address -= rest;\n')], Q),
    ('c07-r-helper', 'C07', [(BA, '    if (queue.full()) queue.set_capacity(queue.size()*2);\n\n', '    makeRoom(queue);\n\n'), (BA, '/***********************************************************************\n * BufferAccumulator Push', 'static void makeRoom(Pothos::Util::RingDeque<Pothos::BufferChunk> &queue)\n{\n    if (queue.full()) queue.set_capacity(queue.capacity()*2);\n}\n\n/***********************************************************************\n * BufferAccumulator Push')], Q),
    ('c07-r-grow', 'C07', [('include/Pothos/Framework/OutputPortImpl.hpp', 'if (queue.full()) queue.set_capacity(queue.size()*2);', 'if (queue.size() == queue.capacity()) queue.set_capacity(queue.capacity() + 16);')], Q),
]
def _m(n, f, a, b, e=C, p='C09'): MUTANTS.append((n, p, [(f, a, b)] if isinstance(a, str) else [(f, x, y) for x, y in zip(a, b)], e))
import glob as _g, os as _o
for _f in sorted(_g.glob(_o.path.dirname(_o.path.abspath(__file__)) + '/mut/*.py')):
    exec(compile(open(_f).read(), _f, 'exec'))
