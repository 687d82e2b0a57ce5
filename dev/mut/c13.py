def m(n, *a, **k):
    MUTANTS.append((n, 'C13', [tuple(a[i:i+3]) for i in range(0, len(a), 3)], k.get("e", C)))
MO='lib/Plugin/Module.cpp'; MP='lib/Plugin/ModulePaths.cpp'; SL='lib/Plugin/ModuleSafeLoad.cpp'; RG='lib/Plugin/Registry.cpp'
E_={'e': Q}
# load
m('c13-nolock', MO, "        std::lock_guard<std::mutex> lock(getModuleMutex());\n        {\n", "        {\n")
m('c13-lock-short', MO, "        std::lock_guard<std::mutex> lock(getModuleMutex());\n        {\n", "        {std::lock_guard<std::mutex> lock(getModuleMutex());}\n        {\n")
m('c13-lock-local', MO, "    static std::mutex mutex;\n    return mutex;", "    static thread_local std::mutex mutex;\n    return mutex;", e=Q)   # see below: not decided
m('c13-noactive', MO, "        registrySetActiveModuleLoading(module);\n        currentModuleVersion = &version;", "        currentModuleVersion = &version;")
m('c13-active-late', MO, "            ActiveModuleGuard amg(*this, _impl->version);\n            ErrorMessageDisableGuard emdg;\n            _impl->sharedLibrary.load(path);\n", "            ErrorMessageDisableGuard emdg;\n            _impl->sharedLibrary.load(path);\n            ActiveModuleGuard amg(*this, _impl->version);\n")
m('c13-nover', MO, "        currentModuleVersion = &version;", "        currentModuleVersion = nullptr;")
m('c13-nover2', MO, "    if (currentModuleVersion != nullptr) *currentModuleVersion = version;", "    if (currentModuleVersion == nullptr) return; std::string v(version);")
m('c13-noreset', MO, "        currentModuleVersion = nullptr;\n        registrySetActiveModuleLoading(Pothos::PluginModule());", "        currentModuleVersion = nullptr;")
m('c13-noreset-v', MO, "        currentModuleVersion = nullptr;\n        registrySetActiveModuleLoading(Pothos::PluginModule());", "        registrySetActiveModuleLoading(Pothos::PluginModule());")
m('c13-reset-outside', MO, "        std::lock_guard<std::mutex> lock(getModuleMutex());\n        {\n            ActiveModuleGuard amg(*this, _impl->version);\n", "        ActiveModuleGuard amg(*this, _impl->version);\n        std::lock_guard<std::mutex> lock(getModuleMutex());\n        {\n")
m('c13-reset-nofail', MO, "            ActiveModuleGuard amg(*this, _impl->version);\n            ErrorMessageDisableGuard emdg;\n            _impl->sharedLibrary.load(path);\n", "            registrySetActiveModuleLoading(*this);\n            currentModuleVersion = &_impl->version;\n            ErrorMessageDisableGuard emdg;\n            _impl->sharedLibrary.load(path);\n            currentModuleVersion = nullptr;\n            registrySetActiveModuleLoading(Pothos::PluginModule());\n")
m('c13-q-reset-catch', MO, "            ActiveModuleGuard amg(*this, _impl->version);\n            ErrorMessageDisableGuard emdg;\n            _impl->sharedLibrary.load(path);\n", "            registrySetActiveModuleLoading(*this);\n            currentModuleVersion = &_impl->version;\n            ErrorMessageDisableGuard emdg;\n            try\n            {\n                _impl->sharedLibrary.load(path);\n            }\n            catch (...)\n            {\n                currentModuleVersion = nullptr;\n                registrySetActiveModuleLoading(Pothos::PluginModule());\n                throw;\n            }\n            currentModuleVersion = nullptr;\n            registrySetActiveModuleLoading(Pothos::PluginModule());\n", e=Q)
m('c13-noconv', MO, "    catch(const Poco::LibraryLoadException &ex)\n", "    catch(const Poco::NotFoundException &ex)\n")
m('c13-conv-other', MO, "        throw PluginModuleError(", "        throw PluginRegistryError(")
m('c13-q-conv-base', MO, "    catch(const Poco::LibraryLoadException &ex)\n", "    catch(const Poco::Exception &ex)\n", e=Q)
m('c13-paths-first', MO, "        _impl->pluginPaths = ::getPluginPaths(*this);\n", "", MO, "        {\n            ActiveModuleGuard amg", "        _impl->pluginPaths = ::getPluginPaths(*this);\n        {\n            ActiveModuleGuard amg")
m('c13-paths-none', MO, "        _impl->pluginPaths = ::getPluginPaths(*this);\n", "        ::getPluginPaths(*this);\n")
m('c13-paths-null', MO, "        _impl->pluginPaths = ::getPluginPaths(*this);\n", "        _impl->pluginPaths = ::getPluginPaths(PluginModule::null());\n")
m('c13-q-paths-after', MO, "        _impl->pluginPaths = ::getPluginPaths(*this);\n    }\n    catch(const Poco::LibraryLoadException &ex)\n    {\n        throw PluginModuleError(\"Pothos::PluginModule(\"+path+\")\", ex.displayText());\n    }\n", "    }\n    catch(const Poco::LibraryLoadException &ex)\n    {\n        throw PluginModuleError(\"Pothos::PluginModule(\"+path+\")\", ex.displayText());\n    }\n    _impl->pluginPaths = ::getPluginPaths(*this);\n", e=Q)
m('c13-q-lock-unique', MO, "        std::lock_guard<std::mutex> lock(getModuleMutex());\n        {\n", "        std::unique_lock<std::mutex> lock(getModuleMutex());\n        {\n", e=Q)
m('c13-wrongpath', MO, "            _impl->sharedLibrary.load(path);\n", "            _impl->sharedLibrary.load(_impl->version);\n")
m('c13-q-implpath', MO, "            _impl->sharedLibrary.load(path);\n", "            _impl->sharedLibrary.load(_impl->path);\n", e=Q)
m('c13-q-helper', MO, "    poco_debug(Poco::Logger::get(\"Pothos.PluginModule.load\"), path);\n    try", "    const auto &libPath = path;\n    poco_debug(Poco::Logger::get(\"Pothos.PluginModule.load\"), libPath);\n    try", MO, "sharedLibrary.load(path)", "sharedLibrary.load(libPath)", e=Q)
# unload
REM="""        try
        {
            if (PluginRegistry::get(pluginPath).getModule()._impl == _impl) PluginRegistry::remove(pluginPath);
        }
        catch (const PluginRegistryError &){}
"""
m('c13-rem-none', MO, REM, "        (void)pluginPath;\n")
m('c13-rem-plain', MO, REM, "        PluginRegistry::remove(pluginPath);\n")
m('c13-rem-notry', MO, REM, "        if (PluginRegistry::get(pluginPath).getModule()._impl == _impl) PluginRegistry::remove(pluginPath);\n")
m('c13-rem-all', MO, REM, "        try{PluginRegistry::remove(pluginPath);}\n        catch (const PluginRegistryError &){}\n")
m('c13-rem-inv', MO, "getModule()._impl == _impl)", "getModule()._impl != _impl)")
m('c13-rem-catch', MO, "        catch (const PluginRegistryError &){}", "        catch (const PluginModuleError &){}")
m('c13-q-rem-catchall', MO, "        catch (const PluginRegistryError &){}", "        catch (...){}", e=Q)
m('c13-q-rem-catchbase', MO, "        catch (const PluginRegistryError &){}", "        catch (const Pothos::Exception &){}", e=Q)
m('c13-q-rem-local', MO, "            if (PluginRegistry::get(pluginPath).getModule()._impl == _impl) PluginRegistry::remove(pluginPath);\n", "            const auto plugin = PluginRegistry::get(pluginPath);\n            const bool mine = plugin.getModule()._impl == _impl;\n            if (not mine) continue;\n            PluginRegistry::remove(pluginPath);\n", e=Q)
m('c13-unload-first', MO, "    _impl->sharedLibrary.unload();\n}", "}", MO, "    for (const auto &pluginPath : this->getPluginPaths())", "    _impl->sharedLibrary.unload();\n    for (const auto &pluginPath : this->getPluginPaths())")
m('c13-unload-none', MO, "    _impl->sharedLibrary.unload();\n}", "}")
m('c13-unload-copies', MO, "    if (not _impl.unique()) return; //this is not the last copy\n", "")
m('c13-unload-inv', MO, "    if (not _impl.unique()) return; //this is not the last copy\n", "    if (_impl.unique()) return; //this is not the last copy\n")
m('c13-q-usecount', MO, "    if (not _impl.unique()) return; //this is not the last copy\n", "    if (_impl.use_count() != 1) return; //this is not the last copy\n", e=Q)
m('c13-unload-2', MO, "    if (not _impl.unique()) return; //this is not the last copy\n", "    if (_impl.use_count() > 2) return; //this is not the last copy\n")
m('c13-null-dtor', MO, "    if (not _impl) return; //no private data\n", "", e=Q)  # unique() of an empty pointer is false
m('c13-rem-break', MO, "        catch (const PluginRegistryError &){}\n", "        catch (const PluginRegistryError &){break;}\n")
m('c13-rem-skip', MO, "        try\n        {\n            if (PluginRegistry::get", "        if (pluginPath.empty() or pluginPath.back() == '_') continue;\n        try\n        {\n            if (PluginRegistry::get")
m('c13-q-early', MO, "    if (not _impl) return; //no private data\n    if (not _impl.unique()) return; //this is not the last copy\n    if (not _impl->sharedLibrary.isLoaded()) return; //module not loaded\n", "    if (not _impl or not _impl.unique() or not _impl->sharedLibrary.isLoaded()) return;\n", e=Q)
m('c13-q-loop', MO, "    for (const auto &pluginPath : this->getPluginPaths())\n    {\n", "    const auto &paths = _impl->pluginPaths;\n    for (auto it = paths.begin(); it != paths.end(); ++it)\n    {\n        const auto &pluginPath = *it;\n", e=Q)
m('c13-q-loop-idx', MO, "    for (const auto &pluginPath : this->getPluginPaths())\n    {\n", "    for (size_t i = 0; i < _impl->pluginPaths.size(); i++)\n    {\n        const auto &pluginPath = _impl->pluginPaths[i];\n", e=Q)
m('c13-loop-idx1', MO, "    for (const auto &pluginPath : this->getPluginPaths())\n    {\n", "    for (size_t i = 1; i < _impl->pluginPaths.size(); i++)\n    {\n        const auto &pluginPath = _impl->pluginPaths[i];\n")
m('c13-q-remhelper', MO, "Pothos::PluginModule::~PluginModule(void)\n", "static void removeQuietly(const std::string &pluginPath)\n{\n    try {Pothos::PluginRegistry::remove(pluginPath);}\n    catch (const Pothos::PluginRegistryError &){}\n}\n\nPothos::PluginModule::~PluginModule(void)\n", MO, "_impl == _impl) PluginRegistry::remove(pluginPath);", "_impl == _impl) removeQuietly(pluginPath);", e=Q)
# registry
m('c13-add-nomodule', RG, "        plugin = Plugin(plugin.getPath(), plugin.getObject(), getActiveModuleLoading());\n", "")
m('c13-add-nomodule2', RG, "        plugin = Plugin(plugin.getPath(), plugin.getObject(), getActiveModuleLoading());\n", "        plugin = Plugin(plugin.getPath(), plugin.getObject());\n")
m('c13-add-noassoc', RG, '        updatePluginAssociation("add", plugin);\n', "")
m('c13-add-assoc-first', RG, '        updatePluginAssociation("add", plugin);\n', "", RG, "        plugin = Plugin(plugin.getPath(), plugin.getObject(), getActiveModuleLoading());\n", '        updatePluginAssociation("add", plugin);\n        plugin = Plugin(plugin.getPath(), plugin.getObject(), getActiveModuleLoading());\n')
m('c13-add-stored-first', RG, "        plugin = Plugin(plugin.getPath(), plugin.getObject(), getActiveModuleLoading());\n", "        root->plugin = plugin;\n        plugin = Plugin(plugin.getPath(), plugin.getObject(), getActiveModuleLoading());\n", RG, "        root->hasPlugin = true;\n        root->plugin = plugin;\n", "        root->hasPlugin = true;\n")
m('c13-add-nomark', RG, "        root->hasPlugin = true;\n", "")
m('c13-add-over', RG, "        //throw if the root already has a plugin\n        if (root->hasPlugin)\n", "        //throw if the root already has a plugin\n        if (root->hasPlugin and getActiveModuleLoading())\n")
m('c13-add-word', RG, 'updatePluginAssociation("add", plugin)', 'updatePluginAssociation("insert", plugin)')
m('c13-rm-noassoc', RG, '        updatePluginAssociation("remove", plugin);\n', "")
m('c13-rm-assoc-late', RG, '        plugin = root->plugin;\n        updatePluginAssociation("remove", plugin);\n        root->hasPlugin = false;\n        root->plugin = Plugin(); //clears\n', '        plugin = root->plugin;\n        root->hasPlugin = false;\n        root->plugin = Plugin(); //clears\n        updatePluginAssociation("remove", root->plugin);\n')
m('c13-rm-keep', RG, "        root->plugin = Plugin(); //clears\n", "")
m('c13-rm-keep2', RG, "        root->hasPlugin = false;\n", "")
m('c13-q-rm-order', RG, '        updatePluginAssociation("remove", plugin);\n        root->hasPlugin = false;\n        root->plugin = Plugin(); //clears\n', '        root->hasPlugin = false;\n        root->plugin = Plugin(); //clears\n        updatePluginAssociation("remove", plugin);\n', e=Q)
m('c13-q-add-order', RG, "        root->hasPlugin = true;\n        root->plugin = plugin;\n", "        root->plugin = plugin;\n        root->hasPlugin = true;\n", e=Q)
m('c13-q-add-local', RG, "        plugin = Plugin(plugin.getPath(), plugin.getObject(), getActiveModuleLoading());\n", "        const auto &active = getActiveModuleLoading();\n        plugin = Plugin(plugin.getPath(), plugin.getObject(), active);\n", e=Q)
m('c13-mp-key', MP, "getModulePathsMap()[plugin.getModule().getFilePath()]", "getModulePathsMap()[plugin.getPath().toString()]")
m('c13-mp-noerase', MP, "        if (it != v.end()) v.erase(it);", "        (void)it;")
m('c13-mp-eraseinv', MP, "        if (it != v.end()) v.erase(it);", "        if (it == v.end()) v.clear();")
m('c13-mp-else', MP, '    if (action == "remove")', '    if (action != "remove")')
m('c13-q-mp-else', MP, '    if (action == "remove")', '    else if (action == "remove")', e=Q)
m('c13-q-mp-eraseremove', MP, "        auto it = std::find(v.begin(), v.end(), path);\n        if (it != v.end()) v.erase(it);", "        v.erase(std::remove(v.begin(), v.end(), path), v.end());", e=Q)
m('c13-mp-lookup', MP, "getModulePathsMap().find(module.getFilePath())", "getModulePathsMap().find(module.getVersion())")
# safe load
m('c13-sl-nowait', SL, "    if (ph.wait() != success)\n", "    if (ph.wait() == 0)\n")
m('c13-sl-wait0', SL, "    if (ph.wait() != success)\n", "    if (ph.wait() < success)\n")
m('c13-sl-or', SL, "(libTime == cachedLibTime) and (modTime == cachedModTime)", "(libTime == cachedLibTime) or (modTime == cachedModTime)")
m('c13-sl-nolib', SL, "(libTime == cachedLibTime) and (modTime == cachedModTime)", "(modTime == cachedModTime)")
m('c13-sl-nomod', SL, "(libTime == cachedLibTime) and (modTime == cachedModTime)", "(libTime == cachedLibTime)")
m('c13-sl-swap', SL, "        auto cachedModTime = cache->getString(escape(modulePath));", "        auto cachedModTime = cache->getString(escape(Pothos::System::getPothosRuntimeLibraryPath()));")
m('c13-sl-defaulttrue', SL, "    catch (const Poco::NotFoundException &){}\n    return false;", "    catch (const Poco::NotFoundException &){return true;}\n    return false;")
m('c13-sl-markearly', SL, "    markCurrentLoadSuccessful(path);\n    return PluginModule(path);", "    return PluginModule(path);", SL, "    //wait, check error", "    markCurrentLoadSuccessful(path);\n    //wait, check error")
m('c13-sl-nofresh', SL, '    if (cache->getString(libKey, "") != libTime) cache = new Poco::Util::PropertyFileConfiguration();\n', "")
m('c13-sl-freshinv', SL, 'if (cache->getString(libKey, "") != libTime) cache', 'if (cache->getString(libKey, "") == libTime) cache')
m('c13-sl-marktime', SL, "    cache->setString(escape(modulePath), modTime);", "    cache->setString(escape(modulePath), libTime);")
m('c13-sl-marknolib', SL, "    cache->setString(libKey, libTime);\n", "")
m('c13-sl-direct', SL, "    if (previousLoadWasSuccessful(path)) return PluginModule(path);", "    if (not previousLoadWasSuccessful(path)) return PluginModule(path);")
m('c13-sl-noarg', SL, "    args.push_back(\"\\\"\"+path+\"\\\"\"); //add quotes for paths with spaces\n", "")
m('c13-sl-code', SL, "    args.push_back(std::to_string(success));", "    args.push_back(std::to_string(0));")
m('c13-sl-errtype', SL, '        throw Pothos::PluginModuleError("Pothos::PluginModule("+path+")", "failed safe load");', '        throw Pothos::PluginRegistryError("Pothos::PluginModule("+path+")", "failed safe load");')
m('c13-q-sl-ret', SL, "        return (libTime == cachedLibTime) and (modTime == cachedModTime);", "        if (libTime != cachedLibTime) return false;\n        return modTime == cachedModTime;", e=Q)
m('c13-q-sl-wait', SL, "    if (ph.wait() != success)\n", "    const int exitCode = ph.wait();\n    if (exitCode != success)\n", e=Q)
m('c13-q-sl-nomark', SL, "    markCurrentLoadSuccessful(path);\n", "", e=Q)
m('c13-q-sl-if', SL, "    if (previousLoadWasSuccessful(path)) return PluginModule(path);\n\n    const int success = 200;\n", "    const bool tested = previousLoadWasSuccessful(path);\n    if (tested) return PluginModule(path);\n    const int success = 99;\n", e=Q)
m('c13-q-sl-default', SL, "        auto cachedModTime = cache->getString(escape(modulePath));", "        auto cachedModTime = cache->getString(escape(modulePath), \"\");", e=Q)
m('c13-q-sl-helper', SL, "//! Was a previous", "static std::string loaderKey(const std::string &p)\n{\n    return escape(p);\n}\n\n//! Was a previous", SL, "        auto cachedModTime = cache->getString(escape(modulePath));", "        auto cachedModTime = cache->getString(loaderKey(modulePath));", e=Q)
# accessors
m('c13-null-path', MO, '    if (not _impl) return "";\n    return _impl->path;', '    return _impl->path;')
m('c13-null-ver', MO, '    if (not _impl) return "";\n    return _impl->version;', '    return _impl->version;')
m('c13-null-inv', MO, '    if (not _impl) return "";\n    return _impl->version;', '    if (_impl) return "";\n    return _impl->version;')
m('c13-null-paths', MO, "    if (not _impl) return noPluginPaths;\n", "")
m('c13-q-null-tern', MO, '    if (not _impl) return "";\n    return _impl->version;', '    return (_impl)?_impl->version:std::string();', e=Q)
