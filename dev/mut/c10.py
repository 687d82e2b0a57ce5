def m(n, *a, **k):
    MUTANTS.append((n, k["p"], [tuple(a[i:i+3]) for i in range(0, len(a), 3)], k.get("e", C)))
TE='lib/Framework/ThreadEnvironment.cpp'; BL='lib/Framework/Block.cpp'
B=dict(p='C10'); Q10=dict(p='C10',e=Q)
m('c10-reg-nobump', TE, "    _handleToTask[handle].reset(new TaskData(task, wake));\n    _configurationSignature++;\n", "    _handleToTask[handle].reset(new TaskData(task, wake));\n    if (_handleToTask.size() == 1) _configurationSignature++;\n", **B)
m('c10-reg-bump-late', TE, "    _handleToTask[handle].reset(new TaskData(task, wake));\n    _configurationSignature++;\n", "    _handleToTask[handle].reset(new TaskData(task, wake));\n", TE, "    lock0.unlock();\n\n    //restore", "    lock0.unlock();\n    _configurationSignature++;\n\n    //restore", **B)
m('c10-reg-bump-after-spawn', TE, "    _handleToTask[handle].reset(new TaskData(task, wake));\n    _configurationSignature++;\n", "    _handleToTask[handle].reset(new TaskData(task, wake));\n", TE, "    lock0.unlock();\n\n    //restore", "    _configurationSignature++;\n    lock0.unlock();\n\n    //restore", **B)
m('c10-reg-early-unlock', TE, "    _handleToTask[handle].reset(new TaskData(task, wake));\n    _configurationSignature++;\n", "    _configurationSignature++;\n    lock0.unlock();\n    _handleToTask[handle].reset(new TaskData(task, wake));\n    lock0.lock();\n", **B)
m('c10-reg-nocleanup', TE, "        _handleToTask.erase(handle);\n        _handleToThread.erase(handle);\n        waitModeEnabled", "        _handleToThread.erase(handle);\n        waitModeEnabled", **B)
m('c10-reg-nocleanup-thread', TE, "        _handleToTask.erase(handle);\n        _handleToThread.erase(handle);\n        waitModeEnabled", "        _handleToTask.erase(handle);\n        waitModeEnabled", **Q10)
m('c10-reg-norestore', TE, "        _handleToThread.erase(handle);\n        waitModeEnabled = _waitModeEnabled.exchange(waitModeEnabled);\n        throw;", "        _handleToThread.erase(handle);\n        throw;", **B)
m('c10-pool-le', TE, "if (_threadPool.size() < _args.numThreads)", "if (_threadPool.size() <= _args.numThreads)", **B)
m('c10-pool-tasks', TE, "if (_threadPool.size() < _args.numThreads)", "if (_handleToTask.size() < _args.numThreads)", **B)
m('c10-pool-index', TE, "size_t index = _threadPool.size();", "size_t index = _handleToTask.size();", **B)
m('c10-single-swapargs', TE, "if (_args.numThreads == 0)\n        {\n            _handleToThread[handle]", "if (_args.numThreads <= 1)\n        {\n            _handleToThread[handle]", **B)
m('c10-unreg-nobump', TE, "        _handleToTask.erase(handle);\n        _configurationSignature++;\n    }\n", "        _handleToTask.erase(handle);\n    }\n", **B)
m('c10-unreg-bump-out', TE, "        _handleToTask.erase(handle);\n        _configurationSignature++;\n    }\n", "        _handleToTask.erase(handle);\n    }\n    _configurationSignature++;\n", **B)
m('c10-unreg-noerase', TE, "        _handleToTask.erase(handle);\n        _configurationSignature++;\n    }\n", "        _configurationSignature++;\n    }\n", **B)
m('c10-unreg-joinlocked', TE, '''        std::lock_guard<std::mutex> lock0(_handleUpdateMutex);
        std::swap(data, _handleToTask[handle]);
        _handleToTask.erase(handle);
        _configurationSignature++;
    }
''', '''        std::swap(data, _handleToTask[handle]);
    }
    std::lock_guard<std::mutex> lock0(_handleUpdateMutex);
    _handleToTask.erase(handle);
    _configurationSignature++;
''', **B)
m('c10-unreg-nounique', TE, "    while (not data.unique()) std::this_thread::sleep_for(std::chrono::milliseconds(1));\n", "    if (not data.unique()) std::this_thread::sleep_for(std::chrono::milliseconds(1));\n", **B)
m('c10-unreg-unique-spin', TE, "    while (not data.unique()) std", "    for (size_t i = 0; i < 1000 and not data.unique(); i++) std", **B)
m('c10-unreg-reset', TE, "    //wake every known task to accept the new config state\n    data->wake();", "    //wake every known task to accept the new config state\n    data->wake();\n    data.reset(new TaskData(data->task, data->wake));", **B)
m('c10-unreg-detach', TE, "_threadPool.back().join();", "_threadPool.back().detach();", **B)
m('c10-unreg-ge', TE, "if (_threadPool.size() > _handleToTask.size())", "if (_threadPool.size() >= _handleToTask.size())", **B)
m('c10-unreg-front', TE, "_threadPool.back().join();", "_threadPool.front().join();", **B)
m('c10-unreg-noresize', TE, "            _threadPool.resize(_handleToTask.size());\n", "", **B)
m('c10-unreg-nothreaderase', TE, "        _handleToThread[handle].join();\n        _handleToThread.erase(handle);", "        _handleToThread[handle].join();", **B)
m('c10-unreg-norestore', TE, "sleep_for(std::chrono::milliseconds(1));\n\n    //restore wait mode\n    waitModeEnabled = _waitModeEnabled.exchange(waitModeEnabled);", "sleep_for(std::chrono::milliseconds(1));\n", **B)
m('c10-loop-nolock', TE, "            std::lock_guard<std::mutex> lock(_handleUpdateMutex);\n            localTasks = _handleToTask;\n            it = localTasks.end();", "            localTasks = _handleToTask;\n            it = localTasks.end();", **B)
m('c10-loop-wronglock', TE, "            std::lock_guard<std::mutex> lock(_handleUpdateMutex);\n            localTasks = _handleToTask;\n            it = localTasks.end();", "            std::lock_guard<std::mutex> lock(_registrationMutex);\n            localTasks = _handleToTask;\n            it = localTasks.end();", **B)
m('c10-loop-stale-it', TE, "            it = localTasks.end();\n            localSignature = _configurationSignature;\n            failAcquireCount", "            localSignature = _configurationSignature;\n            failAcquireCount", **B)
m('c10-loop-index-gt', TE, "if (index >= localTasks.size()) return;", "if (index > localTasks.size()) return;", **B)
m('c10-loop-empty', TE, "if (index >= localTasks.size()) return;", "if (localTasks.empty()) return;", **B)
m('c10-loop-nosig', TE, "            it = localTasks.end();\n            localSignature = _configurationSignature;\n            failAcquireCount", "            it = localTasks.end();\n            localSignature++;\n            failAcquireCount", **B)
m('c10-loop-siglate', TE, '''            it = localTasks.find(handle);
            localSignature = _configurationSignature;

            //handle mode, handle not in tasks
            if (it == localTasks.end()) return;
        }
''', '''            it = localTasks.find(handle);

            //handle mode, handle not in tasks
            if (it == localTasks.end()) return;
        }
        localSignature = _configurationSignature;
''', **B)
m('c10-loop-noflag', TE, "        if (not it->second->flag.test_and_set(std::memory_order_acquire))\n", "        if (localTasks.size() == 1 or not it->second->flag.test_and_set(std::memory_order_acquire))\n", **B)
m('c10-loop-flag-early', TE, "            if (waitOnce) failAcquireCount = 0; //reset fail count\n            it->second->flag.clear(std::memory_order_release);\n", "            if (waitOnce) failAcquireCount = 0; //reset fail count\n", TE, "            const bool waitOnce = ", "            it->second->flag.clear(std::memory_order_release);\n            const bool waitOnce = ", **B)
m('c10-loop-flag-kept', TE, "            else failAcquireCount++;\n            if (waitOnce) failAcquireCount = 0; //reset fail count\n", "            else\n            {\n                failAcquireCount++;\n                if (waitOnce) {failAcquireCount = 0; it++; continue;}\n            }\n            if (waitOnce) failAcquireCount = 0; //reset fail count\n", **B)
m('c10-loop-nostep', TE, "            else failAcquireCount++;\n            if (waitOnce) failAcquireCount = 0; //reset fail count\n            it->second->flag.clear(std::memory_order_release);\n", "            else failAcquireCount++;\n            it->second->flag.clear(std::memory_order_release);\n            if (waitOnce) {failAcquireCount = 0; continue;}\n", **B)
m('c10-wakeall-noclear', TE, "        else\n        {\n            task.second->flag.clear(std::memory_order_release);\n        }\n", "", **B)
m('c10-wakeall-clearboth', TE, "            task.second->wake();\n        }\n        //got the lock, so there is nothing to wake -> unlock\n        else\n        {\n", "            task.second->wake();\n        }\n        //got the lock, so there is nothing to wake -> unlock\n        {\n", **B)
m('c10-single-wrongend', TE, "            if (it == localTasks.end()) return;\n        }\n\n        //perform the task", "            if (localTasks.empty()) return;\n        }\n\n        //perform the task", **B)
m('c10-dtor-no', TE, "    while (not _handleToTask.empty())\n    {", "    if (not _handleToTask.empty())\n    {", **B)
m('c10-dtor-single', TE, "    while (not _handleToTask.empty())\n    {", "    while (_args.numThreads != 0 and not _handleToTask.empty())\n    {", **B)
m('c10-block-notreset', BL, "        _threadPool = ThreadPool(); //not registered anymore, even if the below fails\n", "", **B)
m('c10-block-order', BL, '''        threads->unregisterTask(this);
        _threadPool = ThreadPool(); //not registered anymore, even if the below fails
    }
''', '''        if (not newThreadPool) threads->unregisterTask(this);
    }
''', BL, "    //and save the reference", "    if (_threadPool and newThreadPool)\n    {\n        auto threads = std::static_pointer_cast<ThreadEnvironment>(_threadPool.getContainer());\n        threads->unregisterTask(this);\n    }\n    //and save the reference", **B)
m('c10-block-dtor', BL, "    //clear the thread pool (unregisters)\n    this->setThreadPool(ThreadPool());", "    if (this->isActive()) this->setThreadPool(ThreadPool());" if False else "    if (_calls.empty()) this->setThreadPool(ThreadPool());" if False else "    _threadPool = ThreadPool();", **B)
m('c10-block-same', BL, "    if (_threadPool == newThreadPool) return; //no change\n", "    if (not _threadPool and not newThreadPool) return; //no change\n", **Q10)
# behaviour kept
m('c10-q-sizefirst', TE, "            if (_threadPool.size() < _args.numThreads)\n            {\n                size_t index = _threadPool.size();\n", "            const size_t index = _threadPool.size();\n            if (_args.numThreads > index)\n            {\n", **Q10)
m('c10-q-lambda', TE, "std::thread(std::bind(&ThreadEnvironment::singleProcessLoop, this, handle))", "std::thread(&ThreadEnvironment::singleProcessLoop, this, handle)", **Q10)
m('c10-q-lambda2', TE, "_threadPool.push_back(std::thread(std::bind(&ThreadEnvironment::poolProcessLoop, this, index)));", "_threadPool.emplace_back([this, index](void){this->poolProcessLoop(index);});", **Q10)
m('c10-q-bumpfirst', TE, "    _handleToTask[handle].reset(new TaskData(task, wake));\n    _configurationSignature++;\n", "    _configurationSignature += 1;\n    _handleToTask[handle] = std::make_shared<TaskData>(task, wake);\n", **Q10)
m('c10-q-find', TE, "        std::swap(data, _handleToTask[handle]);\n        _handleToTask.erase(handle);\n        _configurationSignature++;", "        auto found = _handleToTask.find(handle);\n        if (found == _handleToTask.end()) {_waitModeEnabled = waitModeEnabled; return;}\n        data = found->second;\n        _handleToTask.erase(found);\n        _configurationSignature++;", **Q10)
m('c10-q-popback', TE, "            _threadPool.resize(_handleToTask.size());\n", "            _threadPool.pop_back();\n", **Q10)
m('c10-q-usecount', TE, "while (not data.unique())", "while (data.use_count() > 1)", **Q10)
m('c10-q-noassert', TE, "            assert(_threadPool.size() <= _args.numThreads);\n", "", **Q10)
m('c10-q-sigfirst', TE, "            localTasks = _handleToTask;\n            it = localTasks.end();\n            localSignature = _configurationSignature;", "            localSignature = _configurationSignature;\n            localTasks = _handleToTask;\n            it = localTasks.end();", **Q10)
m('c10-q-itbegin', TE, "            it = localTasks.end();\n            localSignature = _configurationSignature;\n            failAcquireCount", "            it = localTasks.begin();\n            localSignature = _configurationSignature;\n            failAcquireCount", **Q10)
m('c10-q-helper', TE, "        //perform the task\n        it->second->task(_waitModeEnabled);", "        //perform the task\n        const auto &data = it->second;\n        const bool wait = _waitModeEnabled;\n        data->task(wait);", **Q10)
m('c10-q-poolhelper', TE, '''        if (not it->second->flag.test_and_set(std::memory_order_acquire))
        {
            const bool waitOnce = _waitModeEnabled and failAcquireCount >= localTasks.size();
            if (it->second->task(waitOnce))''', '''        auto &data = *it->second;
        if (not data.flag.test_and_set(std::memory_order_acquire))
        {
            const bool waitOnce = _waitModeEnabled and failAcquireCount >= localTasks.size();
            if (data.task(waitOnce))''', **Q10)
m('c10-q-continue', TE, '''        else failAcquireCount++;
        it++;''', '''        else
        {
            failAcquireCount++;
            ++it;
            continue;
        }
        std::advance(it, 1);''', **Q10)
m('c10-q-sectfn', TE, '''        if (_threadPool.size() > _handleToTask.size())
        {
            _threadPool.back().join();''', '''        const bool tooMany = _handleToTask.size() < _threadPool.size();
        if (tooMany)
        {
            auto &last = _threadPool.back();
            last.join();''', **Q10)
m('c10-q-dtor', TE, '''    while (not _handleToTask.empty())
    {
        this->unregisterTask(_handleToTask.begin()->first);
    }''', '''    while (_handleToTask.size() != 0)
    {
        void *handle = _handleToTask.begin()->first;
        this->unregisterTask(handle);
    }''', **Q10)
m('c10-q-block', BL, "        threads->unregisterTask(this);\n        _threadPool = ThreadPool(); //not", "        void *handle = this;\n        threads->unregisterTask(handle);\n        _threadPool = ThreadPool(); //not", **Q10)

m('c10-q-lambda3', TE, "_handleToThread[handle] = std::thread(std::bind(&ThreadEnvironment::singleProcessLoop, this, handle));", "_handleToThread[handle] = std::thread([=](void){this->singleProcessLoop(handle);});", **Q10)
m('c10-lambda-wrong', TE, "_threadPool.push_back(std::thread(std::bind(&ThreadEnvironment::poolProcessLoop, this, index)));", "_threadPool.emplace_back([this, &index](void){this->poolProcessLoop(index);});", p='C10')
TH='lib/Framework/ThreadEnvironment.hpp'
m('c10-q-helper-add', TH, "    void poolProcessLoop(size_t index);\n", "    void poolProcessLoop(size_t index);\n    void addTask(void *handle, const TaskData::Task &task, const TaskData::Wake &wake)\n    {\n        _handleToTask[handle].reset(new TaskData(task, wake));\n        _configurationSignature++;\n    }\n",
  TE, "    _handleToTask[handle].reset(new TaskData(task, wake));\n    _configurationSignature++;\n", "    this->addTask(handle, task, wake);\n", **Q10)
m('c10-q-helper-wait', TH, "    void poolProcessLoop(size_t index);\n", "    void poolProcessLoop(size_t index);\n    static void waitUnique(const std::shared_ptr<TaskData> &data)\n    {\n        while (true)\n        {\n            if (data.unique()) break;\n            std::this_thread::sleep_for(std::chrono::milliseconds(1));\n        }\n    }\n",
  TE, "while (not data.unique()) std::this_thread::sleep_for(std::chrono::milliseconds(1));", "waitUnique(data);", **Q10)
m('c10-q-helper-update', TH, "    void poolProcessLoop(size_t index);\n", "    void poolProcessLoop(size_t index);\n    bool update(std::map<void *, std::shared_ptr<TaskData>> &tasks, size_t &signature)\n    {\n        if (_configurationSignature == signature) return false;\n        std::lock_guard<std::mutex> lock(_handleUpdateMutex);\n        tasks = _handleToTask;\n        signature = _configurationSignature;\n        return true;\n    }\n",
  TE, '''        if (_configurationSignature != localSignature)
        {
            std::lock_guard<std::mutex> lock(_handleUpdateMutex);
            localTasks = _handleToTask;
            it = localTasks.end();
            localSignature = _configurationSignature;
            failAcquireCount = 0''', '''        if (this->update(localTasks, localSignature))
        {
            it = localTasks.end();
            failAcquireCount = 0''', TE, '''        if (_configurationSignature != localSignature)
        {
            std::lock_guard<std::mutex> lock(_handleUpdateMutex);
            localTasks = _handleToTask;
            it = localTasks.find(handle);
            localSignature = _configurationSignature;
''', '''        if (this->update(localTasks, localSignature))
        {
            it = localTasks.find(handle);
''', **Q10)
m('c10-q-helper-run', TH, "    void poolProcessLoop(size_t index);\n", "    void poolProcessLoop(size_t index);\n    void startPoolThread(void)\n    {\n        const size_t index = _threadPool.size();\n        _threadPool.push_back(std::thread(std::bind(&ThreadEnvironment::poolProcessLoop, this, index)));\n    }\n",
  TE, "                size_t index = _threadPool.size();\n                _threadPool.push_back(std::thread(std::bind(&ThreadEnvironment::poolProcessLoop, this, index)));\n", "                this->startPoolThread();\n", **Q10)
m('c10-q-find2', TE, "            it = localTasks.find(handle);\n            localSignature = _configurationSignature;\n\n            //handle mode, handle not in tasks\n            if (it == localTasks.end()) return;", "            localSignature = _configurationSignature;\n\n            //handle mode, handle not in tasks\n            if (localTasks.count(handle) == 0) return;\n            it = localTasks.find(handle);", **Q10)
m('c10-q-at', TE, "        //perform the task\n        it->second->task(_waitModeEnabled);", "        //perform the task\n        localTasks.at(handle)->task(_waitModeEnabled);", **Q10)
m('c10-q-early', TE, "            if (_threadPool.size() < _args.numThreads)\n            {\n                size_t index = _threadPool.size();\n                _threadPool.push_back(std::thread(std::bind(&ThreadEnvironment::poolProcessLoop, this, index)));\n            }\n", "            const auto numRunning = _threadPool.size();\n            const bool full = not (numRunning < _args.numThreads);\n            if (not full) _threadPool.push_back(std::thread(std::bind(&ThreadEnvironment::poolProcessLoop, this, numRunning)));\n", **Q10)
m('c10-q-branches', TE, "    //single task mode: stop the explicit task for this handle\n    if (_args.numThreads == 0)\n    {\n        _handleToThread[handle].join();\n        _handleToThread.erase(handle);\n    }", "    //single task mode: stop the explicit task for this handle\n    const bool single = _args.numThreads == 0;\n    if (single)\n    {\n        auto thread = _handleToThread.find(handle);\n        thread->second.join();\n        _handleToThread.erase(thread);\n    }", **Q10)
m('c10-q-store', TE, "        _handleToThread.erase(handle);\n        waitModeEnabled = _waitModeEnabled.exchange(waitModeEnabled);\n        throw;", "        _handleToThread.erase(handle);\n        _waitModeEnabled = waitModeEnabled;\n        throw;", **Q10)
m('c10-q-loop-struct', TE, '''        if (not it->second->flag.test_and_set(std::memory_order_acquire))
        {''', '''        const bool busy = it->second->flag.test_and_set(std::memory_order_acquire);
        if (not busy)
        {''', **Q10)
m('c10-q-block-helper', BL, '''    if (_threadPool)
    {
        auto threads = std::static_pointer_cast<ThreadEnvironment>(_threadPool.getContainer());
        threads->unregisterTask(this);
''', '''    if (bool(_threadPool))
    {
        const auto oldPool = _threadPool;
        std::static_pointer_cast<ThreadEnvironment>(oldPool.getContainer())->unregisterTask(this);
''', **Q10)
