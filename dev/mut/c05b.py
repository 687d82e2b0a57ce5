def m(n, *a, **k):
    MUTANTS.append((n, k.get('p','C05'), [tuple(a[i:i+3]) for i in range(0, len(a), 3)], k.get("e", C)))
q=lambda *a,**k: m(*a, e=Q, **k)
RG='lib/Plugin/Registry.cpp'; TE='lib/Framework/ThreadEnvironment.cpp'; CL='lib/Remote/Client.cpp'; OP='lib/Framework/OutputPort.cpp'; IP='lib/Framework/InputPort.cpp'; MS='lib/Plugin/ModuleSafeLoad.cpp'; EV='lib/Util/EvalEnvironment.cpp'; HS='lib/Object/Hash.cpp'; MO='lib/Plugin/ModulePaths.cpp'; LG='lib/System/Logger.cpp'; SH='lib/Remote/ServerHandler.cpp'; RP='lib/Remote/RemoteProxy.cpp'
m('c05b-add-event-locked', RG, '''        root->plugin = plugin;
    }

    handlePluginEvent(plugin, "add");''', '''        root->plugin = plugin;
        handlePluginEvent(plugin, "add");
    }
''')
m('c05b-missed-locked', RG, '''    handleMissedSubTreeEvents(plugin.getObject(), plugin.getPath());
}''', '''    Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
    handleMissedSubTreeEvents(plugin.getObject(), plugin.getPath());
}''')
m('c05b-get-exists', RG, '''    std::lock_guard<Pothos::Util::SpinLockRW> lock(getRegistryMutex());
        RegistryEntry *root = findRegistryEntry(path);''', '''    std::lock_guard<Pothos::Util::SpinLockRW> lock(getRegistryMutex());
        if (Pothos::PluginRegistry::empty(path)) throw Pothos::PluginRegistryError("Pothos::PluginRegistry::remove("+path.toString()+")", "plugin path not found");
        RegistryEntry *root = findRegistryEntry(path);''')
m('c05b-manual', RG, '''    Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
    const RegistryEntry *root = findRegistryEntry(path);

    //throw if the root does not have a plugin
    if (root == nullptr or not root->hasPlugin)
    {
        throw Pothos::PluginRegistryError("Pothos::PluginRegistry::get("''', '''    getRegistryMutex().lock_shared();
    const RegistryEntry *root = findRegistryEntry(path);
    struct Un {~Un(void){}} un;

    //throw if the root does not have a plugin
    if (root == nullptr or not root->hasPlugin)
    {
        throw Pothos::PluginRegistryError("Pothos::PluginRegistry::get("''')

m('c05b-lookup-excl', HS, 'Pothos::Util::SpinLockRW::SharedLock lock(getMapMutex());', 'std::lock_guard<Pothos::Util::SpinLockRW> lock(getMapMutex());')
m('c05b-join-locked', TE, '''        std::lock_guard<std::mutex> lock0(_handleUpdateMutex);
        std::swap(data, _handleToTask[handle]);
        _handleToTask.erase(handle);
        _configurationSignature++;
    }
''', '''        std::swap(data, _handleToTask[handle]);
        _handleToTask.erase(handle);
        _configurationSignature++;
    }
''', TE, '''    std::shared_ptr<TaskData> data;

    //disable wait mode''', '''    std::shared_ptr<TaskData> data;
    std::lock_guard<std::mutex> lock0(_handleUpdateMutex);

    //disable wait mode''')
m('c05b-order', TE, '''    std::lock_guard<std::mutex> lock(_registrationMutex);
    std::shared_ptr<TaskData> data;
''', '''    std::lock_guard<std::mutex> lock1(_handleUpdateMutex);
    std::lock_guard<std::mutex> lock(_registrationMutex);
    std::shared_ptr<TaskData> data;
''')
m('c05b-server-nested', SH, '''    std::lock_guard<std::mutex> lock(getObjectsMutex());
    static size_t id = 0;''', '''    std::lock_guard<std::mutex> lock(getObjectsMutex());
    if (obj.type() == typeid(size_t)) return getObjectAtId(obj);
    static size_t id = 0;''', SH, 'static Pothos::Object getNewObjectId(', 'static Pothos::Object getObjectAtId(const Pothos::Object &id);\nstatic Pothos::Object getNewObjectId(')
m('c05b-client-wait', RP, '''        std::unique_lock<std::mutex> lock(isMutex);

        //is''', '''        std::lock_guard<std::mutex> busy(osMutex);
        std::unique_lock<std::mutex> lock(isMutex);

        //is''')
m('c05b-op-callback', OP, '''        std::lock_guard<Pothos::Util::SpinLock> lock(*mutex);
        buff.getBufferManager()->push(buff);
    }
''', '''        std::lock_guard<Pothos::Util::SpinLock> lock(*mutex);
        buff.getBufferManager()->push(buff);
        if (_actor != nullptr) _actor->flagExternalChange();
    }
''', e=Q)
# refactors
q('c05b-q-unique', RG, '''    {
        std::lock_guard<Pothos::Util::SpinLockRW> lock(getRegistryMutex());
        RegistryEntry *root = findRegistryEntry(path);
''', '''    {
        std::unique_lock<Pothos::Util::SpinLockRW> lock(getRegistryMutex());
        RegistryEntry *root = findRegistryEntry(path);
''')
q('c05b-q-unlock', RG, '''    Plugin plugin;
    {
        std::lock_guard<Pothos::Util::SpinLockRW> lock(getRegistryMutex());
        RegistryEntry *root''', '''    Plugin plugin;
    {
        std::unique_lock<Pothos::Util::SpinLockRW> lock(getRegistryMutex(), std::defer_lock);
        lock.lock();
        RegistryEntry *root''')
q('c05b-q-take', RG, '''Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
{''', '''static Pothos::Plugin takePlugin(const Pothos::PluginPath &path)
{
    std::lock_guard<Pothos::Util::SpinLockRW> lock(getRegistryMutex());
    RegistryEntry *root = findRegistryEntry(path);
    if (root == nullptr or not root->hasPlugin)
    {
        throw Pothos::PluginRegistryError("Pothos::PluginRegistry::remove("+path.toString()+")", "plugin path not found");
    }
    const Pothos::Plugin plugin = root->plugin;
    updatePluginAssociation("remove", plugin);
    root->hasPlugin = false;
    root->plugin = Pothos::Plugin(); //clears
    return plugin;
}

Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
{''', RG, '''    Plugin plugin;
    {
        std::lock_guard<Pothos::Util::SpinLockRW> lock(getRegistryMutex());
        RegistryEntry *root = findRegistryEntry(path);

        //throw if the root does not have a plugin
        if (root == nullptr or not root->hasPlugin)
        {
            throw Pothos::PluginRegistryError("Pothos::PluginRegistry::remove("+path.toString()+")", "plugin path not found");
        }

        //clear plugin entry and return result
        plugin = root->plugin;
        updatePluginAssociation("remove", plugin);
        root->hasPlugin = false;
        root->plugin = Plugin(); //clears
    }
''', '''    const Plugin plugin = takePlugin(path);
''')
q('c05b-q-manual', MO, '    std::lock_guard<Pothos::Util::SpinLockRW> lock(getModulePathsMutex());', '    std::unique_lock<Pothos::Util::SpinLockRW> lock(getModulePathsMutex());')
q('c05b-q-adopt', OP, '''        std::lock_guard<Pothos::Util::SpinLock> lock(*mutex);
''', '''        mutex->lock();
        std::lock_guard<Pothos::Util::SpinLock> lock(*mutex, std::adopt_lock);
''')
q('c05b-q-scopelock', TE, '''    std::unique_lock<std::mutex> lock0(_handleUpdateMutex);
''', '''    std::unique_lock<std::mutex> lock0(_handleUpdateMutex, std::defer_lock);
    lock0.lock();
''')
q('c05b-q-snapshot', HS, 'Pothos::Util::SpinLockRW::SharedLock lock(getMapMutex());', 'Pothos::Util::SharedLock<Pothos::Util::SpinLockRW> lock(getMapMutex());')
