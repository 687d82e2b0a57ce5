m=lambda *a,p='C01',**k: _m(*a,p=p,**k)
q=lambda *a,p='C01',**k: _m(*a,e=Q,p=p,**k)
WH='lib/Framework/WorkerActor.hpp'; PA='lib/Framework/WorkerActorPortAllocation.cpp'; BL='lib/Framework/Block.cpp'
m('c01-acq-timeout', AI, '''    while (not _extCallLock.try_lock())
    {
        _acquireCond.wait_for(lock, std::chrono::milliseconds(1));
    }''', '''    for (size_t i = 0; i < 10000 and not _extCallLock.try_lock(); i++)
    {
        _acquireCond.wait_for(lock, std::chrono::milliseconds(1));
    }''')
m('c01-acq-if', AI, 'if (_extCallLock.try_lock()) return true; //lock out external calls', 'if (not _inExternalCall() or _extCallLock.try_lock()) return true; //lock out external calls')
m('c01-acq-skip', AI, '''        if (_extCallLock.try_lock()) return true; //lock out external calls
        this->flagInternalChange(); //or busy in a call, re-flag the change''', '''        _extCallLock.try_lock(); //lock out external calls
        return true;''')
m('c01-release-twice', WH, '''            this->workTask();
            this->workerThreadRelease();
            return true;''', '''            this->workTask();
            this->workerThreadRelease();
            if (waitEnabled) this->workerThreadRelease();
            return true;''')
m('c01-norelease', WH, '''            this->workTask();
            this->workerThreadRelease();
            return true;''', '''            this->workTask();
            if (not this->activeState) return true;
            this->workerThreadRelease();
            return true;''')
m('c01-early-release', WH, '''            this->workTask();
            this->workerThreadRelease();''', '''            const bool active = this->activeState;
            if (not active) this->workerThreadRelease();
            this->workTask();
            if (active) this->workerThreadRelease();''')
m('c01-auto-in', PA, '''    ActorInterfaceLock lock(this);
    this->autoAllocatePort(this->inputs''', '''    if (this->inputs.count(name) == 0) ActorInterfaceLock lock(this);
    this->autoAllocatePort(this->inputs''')
m('c01-auto-del', PA, '''    ActorInterfaceLock lock(this);
    this->autoDeletePort(name, this->outputs''', '''    {ActorInterfaceLock lock(this);}
    this->autoDeletePort(name, this->outputs''')
m('c01-call', BL, '''    ActorInterfaceLock lock(_actor.get());

    return const_cast''', '''    if (it->second.getNumArgs() != 0) ActorInterfaceLock(_actor.get());

    return const_cast''')
m('c01-call-unl', BL, '''    ActorInterfaceLock lock(_actor.get());

    return const_cast''', '''    std::unique_ptr<ActorInterfaceLock> lock;
    if (numArgs != 0) lock.reset(new ActorInterfaceLock(_actor.get()));

    return const_cast''')
m('c01-on-early', WA, '''    ActorInterfaceLock lock(this);

    //ensure that every output port gets a buffer manager
    //because connection logic skips over unused ports
    for (const auto &entry : this->outputs)
    {
        this->ensureOutputBufferManagerNoLock(entry.first);
    }
''', '''    //ensure that every output port gets a buffer manager
    //because connection logic skips over unused ports
    for (const auto &entry : this->outputs)
    {
        this->ensureOutputBufferManagerNoLock(entry.first);
    }
    ActorInterfaceLock lock(this);
''')
m('c01-off', WA, '''    ActorInterfaceLock lock(this);

    //not activated? just return
    if (not this->activeState) return;
''', '''    //not activated? just return
    if (not this->activeState) return;

    ActorInterfaceLock lock(this);
''')
m('c01-off2', WA, '''    this->activeState = false;
    this->block->deactivate();
    this->activityIndicator''', '''    this->activeState = false;
    lock.~ActorInterfaceLock(); new (&lock) ActorInterfaceLock(this);
    this->block->deactivate();
    this->activityIndicator''')
m('c01-mode', WA, '''    ActorInterfaceLock lock(this);

    //signals and slots always abdicate, they don't care about buffers''', '''    //signals and slots always abdicate, they don't care about buffers''')
m('c01-mgr', WA, '''    ActorInterfaceLock lock(this);
    return this->getBufferManagerNoLock(name, domain, isInput);''', '''    return this->getBufferManagerNoLock(name, domain, isInput);''')
m('c01-setmgr', WA, '''    ActorInterfaceLock lock(this);
    outputs.at(name)->bufferManagerSetup(manager);''', '''    outputs.at(name)->bufferManagerSetup(manager);
    ActorInterfaceLock lock(this);''')
m('c01-sub', WA, '''    ActorInterfaceLock lock(this);

    //locate the subscriber in the list
    auto &subscribers = this->inputs.at''', '''    if (action == "add") ActorInterfaceLock lock(this);

    //locate the subscriber in the list
    auto &subscribers = this->inputs.at''')
m('c01-rel-order', AI, '''    _externalAcquired--;
    _extCallLock.unlock();
    this->flagInternalChange();''', '''    _externalAcquired--;
    if (_externalAcquired == 0) _extCallLock.unlock();
    this->flagInternalChange();''')
m('c01-lock-copy', AI, '''    ~ActorInterfaceLock(void)
    {
        _actor->externalCallRelease();''', '''    ~ActorInterfaceLock(void)
    {
        if (not std::uncaught_exception()) _actor->externalCallRelease();''')
# behaviour kept
q('c01q-raii', WH, '''        if (this->workerThreadAcquire(waitEnabled))
        {
            this->workTask();
            this->workerThreadRelease();
            return true;
        }
        return false;''', '''        if (not this->workerThreadAcquire(waitEnabled)) return false;
        struct Release {ActorInterface *a; ~Release(void){a->workerThreadRelease();}} release{this};
        this->workTask();
        return true;''')
q('c01q-wait', AI, '''    while (not _extCallLock.try_lock())
    {
        _acquireCond.wait_for(lock, std::chrono::milliseconds(1));
    }''', '''    for (;;)
    {
        if (_extCallLock.try_lock()) break;
        _acquireCond.wait_for(lock, std::chrono::milliseconds(1));
    }''')
q('c01q-helper', AI, '''    if (_workerThreadAcquireWait(waitEnabled))
    {
        if (_extCallLock.try_lock()) return true; //lock out external calls
        this->flagInternalChange(); //or busy in a call, re-flag the change
    }
    return false;''', '''    if (not _workerThreadAcquireWait(waitEnabled)) return false;
    const bool acquired = _extCallLock.try_lock();
    if (not acquired) this->flagInternalChange();
    return acquired;''')
q('c01q-off', WA, '''    //not activated? just return
    if (not this->activeState) return;

    this->activeState = false;
    this->block->deactivate();
    this->activityIndicator.fetch_add(1, std::memory_order_relaxed);''', '''    if (this->activeState)
    {
        this->activeState = false;
        this->block->deactivate();
        this->activityIndicator.fetch_add(1, std::memory_order_relaxed);
    }''')
q('c01q-scope', WA, '''    ActorInterfaceLock lock(this);
    return this->getBufferManagerNoLock(name, domain, isInput);''', '''    BufferManager::Sptr m;
    {
        ActorInterfaceLock lock(this);
        m = this->getBufferManagerNoLock(name, domain, isInput);
    }
    return m;''')
# C02
m('c02-ext-noflag', AI, '''    _extCallLock.unlock();
    this->flagInternalChange();
    _acquireCond.notify_all();''', '''    _extCallLock.unlock();
    if (_externalAcquired != 0) this->flagInternalChange();
    _acquireCond.notify_all();''', p='C02')
m('c02-consume', AI, '''        if (_inExternalCall()) return false;
        return not _changeFlagged.test_and_set(std::memory_order_acquire);''', '''        const bool changed = not _changeFlagged.test_and_set(std::memory_order_acquire);
        return changed and not _inExternalCall();''', p='C02')
m('c02-waitlost', AI, '''        bool rdy = _acquireCond.wait_for(lock, std::chrono::milliseconds(1), isReady);
        _aquireWaiting.store(false, std::memory_order_relaxed);
        return rdy;''', '''        _acquireCond.wait_for(lock, std::chrono::milliseconds(1), isReady);
        _aquireWaiting.store(false, std::memory_order_relaxed);
        return isReady();''', p='C02')
m('c02-relaxed', AI, '''    //asynchronous indication
    _changeFlagged.clear(std::memory_order_release);''', '''    //asynchronous indication
    _changeFlagged.clear(std::memory_order_relaxed);''', p='C02')
m('c02-slot', IP, '''    assert(_actor != nullptr);
    _actor->flagExternalChange();
}
''', '''    assert(_actor != nullptr);
}
''', p='C02')
m('c02-wakewait', AI, '''        _aquireWaiting.store(true, std::memory_order_relaxed);
        std::unique_lock<std::mutex> lock(_acquireMutex);
        bool rdy = _acquireCond.wait_for(lock, std::chrono::milliseconds(1), isReady);''', '''        std::unique_lock<std::mutex> lock(_acquireMutex);
        _aquireWaiting.store(true, std::memory_order_relaxed);
        _acquireCond.wait(lock, [&]{return isReady() or _inExternalCall();});
        bool rdy = true;''', p='C02')
m('c02-yield', BL, '''{
    _actor->flagInternalChange();
}''', '''{
    if (_actor->activeState) _actor->wakeNoChange();
}''', p='C02')
m('c02-slotcalls', WA, '''            this->flagInternalChange();
            this->activityIndicator.fetch_add(1, std::memory_order_relaxed);
        }''', '''            this->activityIndicator.fetch_add(1, std::memory_order_relaxed);
        }''', p='C02')
q('c02q-ready', AI, '''        if (_inExternalCall()) return false;
        return not _changeFlagged''', '''        return not _inExternalCall() and not _changeFlagged''', p='C02 C01')
q('c02q-first', AI, '''    if (waitEnabled)
    {
        if (isReady()) return true; //first check without locking
''', '''    const bool ready = isReady();
    if (ready) return true;
    if (waitEnabled)
    {
''', p='C02 C01')
# C08
PW='lib/Framework/WorkerActorPrePostWork.cpp'
q('c08q-slot-get', WA, '''        POTHOS_EXCEPTION_TRY
        {
            const auto call = port.slotCallsPop();
            const auto &args = call.extract<ObjectVector>();
''', '''        const auto call = port.slotCallsPop();
        const auto &args = call.extract<ObjectVector>();
        POTHOS_EXCEPTION_TRY
        {
''', p='C08')
m('c08-prepare', WA, '''    POTHOS_EXCEPTION_TRY
    {
        if (not block->prepare()) return;
    }
    POTHOS_EXCEPTION_CATCH(const Exception &ex)
    {
        poco_error_f2(Poco::Logger::get("Pothos.Block.prepare"), "%s: %s", block->getName(), ex.displayText());
        return;
    }''', '''    try
    {
        if (not block->prepare()) return;
    }
    catch (const Exception &ex)
    {
        poco_error_f2(Poco::Logger::get("Pothos.Block.prepare"), "%s: %s", block->getName(), ex.displayText());
        return;
    }''', p='C08')
m('c08-work-std', WA, '''        block->work();
    }
    POTHOS_EXCEPTION_CATCH(const Exception &ex)
    {
        poco_error_f2(Poco::Logger::get("Pothos.Block.work"), "%s: %s", block->getName(), ex.displayText());
    }''', '''        block->work();
    }
    POTHOS_EXCEPTION_CATCH(const Exception &ex)
    {
        poco_error_f2(Poco::Logger::get("Pothos.Block.work"), "%s: %s", block->getName(), ex.displayText());
        if (not this->activeState) throw;
    }''', p='C08')
q('c08q-work', WA, '''    POTHOS_EXCEPTION_TRY
    {
        this->numWorkCalls++;
        TimeAccumulator workTime(this->totalTimeWork);
        block->work();
    }''', '''    this->numWorkCalls++;
    POTHOS_EXCEPTION_TRY
    {
        TimeAccumulator workTime(this->totalTimeWork);
        block->work();
    }''', p='C08')
