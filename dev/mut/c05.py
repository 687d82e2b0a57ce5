RG='lib/Plugin/Registry.cpp'; TE='lib/Framework/ThreadEnvironment.cpp'
def _5(n,f,a,b,e=C): _m('c05-'+n,f,a,b,e,'C05')
_5('handler-shared', RG, '''        parentPlugins.insert(parentPlugins.begin(), root->plugin);
    }

    //traverse back up the plugin tree -- calling all potential handlers
    for (size_t i = 0; i < parentPlugins.size(); i++)
    {
        callPluginEventHandler(parentPlugins[i].getObject(), plugin, event);
    }
''','''        parentPlugins.insert(parentPlugins.begin(), root->plugin);
        for (size_t i = 0; i < parentPlugins.size(); i++)
        {
            callPluginEventHandler(parentPlugins[i].getObject(), plugin, event);
        }
    }
''')
_5('handler-excl', RG, '''        root->plugin = Plugin(); //clears
    }

    handlePluginEvent(plugin, "remove");''','''        root->plugin = Plugin(); //clears
        handleMissedSubTreeEvents(plugin.getObject(), path);
    }

    handlePluginEvent(plugin, "remove");''')
_5('reacq', RG, '''        root->plugin = plugin;
    }
''','''        root->plugin = plugin;
        assert(not empty(path));
        if (empty(path)) throw Pothos::PluginRegistryError("Pothos::PluginRegistry::add("+path.toString()+")", "not stored");
    }
''')
_5('get-under', RG, '''        updatePluginAssociation("remove", plugin);
        root->hasPlugin = false;''','''        updatePluginAssociation("remove", plugin);
        if (plugin.getModule() and list(path).size() > 1) poco_debug(Poco::Logger::get("Pothos.PluginRegistry.remove"), "sub tree stays");
        root->hasPlugin = false;''')
_5('order', TE, '''        std::lock_guard<std::mutex> lock0(_handleUpdateMutex);
        std::swap(data, _handleToTask[handle]);
        _handleToTask.erase(handle);
        _configurationSignature++;
    }

    //wake every known task to accept the new config state
    data->wake();
    for (const auto &pair : _handleToTask) pair.second->wake();
''','''        std::lock_guard<std::mutex> lock0(_handleUpdateMutex);
        std::swap(data, _handleToTask[handle]);
        _handleToTask.erase(handle);
        _configurationSignature++;

    //wake every known task to accept the new config state
    data->wake();
    for (const auto &pair : _handleToTask) pair.second->wake();
    }
''', Q)
_5('join', TE, '''    //single task mode: stop the explicit task for this handle
    if (_args.numThreads == 0)
    {
        _handleToThread[handle].join();''','''    //single task mode: stop the explicit task for this handle
    if (_args.numThreads == 0)
    {
        std::lock_guard<std::mutex> lock0(_handleUpdateMutex);
        _handleToThread[handle].join();''')
_5('manual-leak', 'lib/Managed/Registry.cpp', '    Pothos::Util::SpinLockRW::SharedLock lock(getMapMutex());\n', '    getMapMutex().lock_shared();\n')
_5('recv-lock', 'lib/Remote/RemoteProxy.cpp', '''            connectionActive = false;
            lock.lock();
            isBlocking = false;
            lock.unlock();
            isCond''','''            connectionActive = false;
            lock.lock();
            isBlocking = false;
            isCond''', Q)
_5('cond-two', 'lib/Remote/RemoteProxy.cpp', '''        std::unique_lock<std::mutex> lock(isMutex);
''','''        std::lock_guard<std::mutex> osLock(osMutex);
        std::unique_lock<std::mutex> lock(isMutex);
''')
_5('raw-throw', 'lib/Remote/ServerHandler.cpp', """    std::lock_guard<std::mutex> lock(getObjectsMutex());
    return getObjectsMap().at(key);""","""    getObjectsMutex().lock();
    auto obj = getObjectsMap().at(key);
    getObjectsMutex().unlock();
    return obj;""")
_5('raw-late', 'lib/Remote/ServerHandler.cpp', """    const size_t key(id);
    std::lock_guard<std::mutex> lock(getObjectsMutex());
    return getObjectsMap().at(key);""","""    std::unique_lock<std::mutex> lock(getObjectsMutex());
    const auto it = getObjectsMap().find(size_t(id));
    if (it == getObjectsMap().end()) throw Pothos::Exception("getObjectAtId", "unknown");
    auto obj = it->second;
    lock.unlock();
    return obj;""", Q)
_5('msg-reacq', 'lib/Framework/InputPort.cpp', """        std::lock_guard<Util::SpinLock> lock(_asyncMessagesLock);
""", """        std::lock_guard<Util::SpinLock> lock(_asyncMessagesLock);
        if (this->asyncMessagesEmpty() and _workEvents) _workEvents = 1;
""")
_5('swap-order', 'lib/Framework/WorkerActor.cpp', """            std::lock_guard<Util::SpinLock> lockM(port._asyncMessagesLock);
""", """            std::lock_guard<Util::SpinLock> lockM(port._asyncMessagesLock);
            std::lock_guard<Util::SpinLock> lockX(port._bufferAccumulatorLock);
""", Q)
_5('managed-cb', 'lib/Managed/Registry.cpp', "        std::lock_guard<Pothos::Util::SpinLockRW> lock(getMapMutex());\n", "        std::lock_guard<Pothos::Util::SpinLockRW> lock(getMapMutex());\n        if (Pothos::PluginRegistry::empty(Pothos::PluginPath(\"/managed\"))) poco_debug(Poco::Logger::get(\"x\"), \"none\");\n", Q)
