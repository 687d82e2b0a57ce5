m=lambda *a,**k: _m(*a,**k)
R='lib/Plugin/Registry.cpp'; OC='lib/Object/Convert.cpp'; MR='lib/Managed/Registry.cpp'
B11=dict(p='C11'); Q11=dict(p='C11',e=Q); B12=dict(p='C12'); Q12=dict(p='C12',e=Q); B25=dict(p='C25'); Q25=dict(p='C25',e=Q)
SL='Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());\n    const RegistryEntry *root = findRegistryEntry(path);\n\n'
m('c11-empty-nolock', R, SL+'    return root == nullptr', '''    const RegistryEntry *root = nullptr;
    { Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex()); root = findRegistryEntry(path); }

    return root == nullptr''', **B11)
m('c11-remove-shared', R, '''        std::lock_guard<Pothos::Util::SpinLockRW> lock(getRegistryMutex());
        RegistryEntry *root = findRegistryEntry(path);''', '''        Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
        RegistryEntry *root = findRegistryEntry(path);''', **B11)
m('c11-dump-nolock', R, '''    Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
    PluginRegistryInfoDump dump;''', '''    PluginRegistryInfoDump dump;''', **B11)
m('c11-temp-lock', R, '''    Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
    PluginRegistryInfoDump dump;''', '''    (Pothos::Util::SpinLockRW::SharedLock(getRegistryMutex()));
    PluginRegistryInfoDump dump;''', **B11)
m('c11-canconvert-nolock', OC, '''    Pothos::Util::SpinLockRW::SharedLock lock(getMapMutex());
    auto it = getConvertMap().find(typesHashCombine(srcType, dstType));

''', '''    auto it = getConvertMap().end();
    {
        Pothos::Util::SpinLockRW::SharedLock lock(getMapMutex());
        it = getConvertMap().find(typesHashCombine(srcType, dstType));
    }

''', **B11)
m('c11-event-early', MR, '''        std::lock_guard<Pothos::Util::SpinLockRW> lock(getMapMutex());
        if (event == "add")
        {''', '''        if (event == "add") getClassMap()[reg.type().hash_code()] = plugin;
        std::lock_guard<Pothos::Util::SpinLockRW> lock(getMapMutex());
        if (event == "add")
        {''', **B11)
m('c11-insert-on-read', MR, '''    auto it = getClassMap().find(type.hash_code());

    //thow''', '''    if (not getClassMap()[type.hash_code()].getObject()) getClassMap().erase(type.hash_code());
    auto it = getClassMap().find(type.hash_code());

    //thow''', **B11)
m('c11-unlock-before-use', MR, '''    //find the plugin in the map, it will be null if not found
    Pothos::Util::SpinLockRW::SharedLock lock(getMapMutex());
    auto it = getClassMap().find(type.hash_code());
''', '''    //find the plugin in the map, it will be null if not found
    getMapMutex().lock_shared();
    auto it = getClassMap().find(type.hash_code());
    getMapMutex().unlock_shared();
''', **B11)
m('c11q-explicit', R, SL+'    return root == nullptr', '''    auto &mtx = getRegistryMutex();
    mtx.lock_shared();
    const RegistryEntry *root = findRegistryEntry(path);
    const bool none = (root == nullptr or not root->hasPlugin);
    mtx.unlock_shared();
    return none;
    return root == nullptr''', **Q11)
m('c11q-unique', MR, 'std::lock_guard<Pothos::Util::SpinLockRW> lock(getMapMutex());', 'std::unique_lock<Pothos::Util::SpinLockRW> lock(getMapMutex());', **Q11)
m('c11q-helper', R, '''bool Pothos::PluginRegistry::exists(const PluginPath &path)
{
    Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
    const RegistryEntry *root = findRegistryEntry(path);

    return root != nullptr and root->getNumPlugins() != 0;
}''', '''static size_t countAt(const Pothos::PluginPath &path)
{
    const RegistryEntry *root = findRegistryEntry(path);
    return (root == nullptr)? 0 : root->getNumPlugins();
}

bool Pothos::PluginRegistry::exists(const PluginPath &path)
{
    Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
    return countAt(path) != 0;
}''', **Q11)
m('c11q-copy-out', MR, '''    Pothos::Util::SpinLockRW::SharedLock lock(getMapMutex());
    auto it = getClassMap().find(type.hash_code());

    //thow an error when the entry is not found
    if (it == getClassMap().end()) throw''', '''    Pothos::Plugin found; bool have = false;
    {
        Pothos::Util::SpinLockRW::SharedLock lock(getMapMutex());
        auto it0 = getClassMap().find(type.hash_code());
        if (it0 != getClassMap().end()) { found = it0->second; have = true; }
    }
    if (have) return found.getObject().extract<Pothos::ManagedClass>();
    Pothos::Util::SpinLockRW::SharedLock lock(getMapMutex());
    auto it = getClassMap().find(type.hash_code());

    //thow an error when the entry is not found
    if (it == getClassMap().end()) throw''', **Q11)
# C12
m('c12-io-remove', OC, 'getConvertIoMap()[inputType.hash_code()].erase(outputType.hash_code());', 'getConvertIoMap()[outputType.hash_code()].erase(inputType.hash_code());', **B12)
m('c12-swapped', OC, 'getConvertMap().erase(typesHashCombine(inputType, outputType));', 'getConvertMap().erase(typesHashCombine(outputType, inputType));', **B12)
m('c12-shared-kept', MR, '            getClassMap().erase(reg.sharedType().hash_code());\n', '', **B12)
m('c12-cond-add', MR, '            getClassMap()[reg.pointerType().hash_code()] = plugin;', '            if (reg.pointerType() != reg.type()) getClassMap()[reg.pointerType().hash_code()] = plugin;', **B12)
m('c12-remove-null', MR, 'getClassMap().erase(reg.type().hash_code());', 'getClassMap()[reg.type().hash_code()] = Pothos::Plugin();', **B12)
m('c12-else', MR, '        if (event == "remove")\n        {\n            getClassMap()', '        else\n        {\n            getClassMap()', **B12)
m('c12-event-name', OC, 'if (event == "remove")', 'if (event == "delete")', **B12)
m('c12-remove-first-only', MR, 'getClassMap().erase(reg.pointerType().hash_code());', 'getClassMap().erase(reg.type().hash_code());', **B12)
m('c12-lookup', OC, 'if (it1 != getConvertMap().end() and it2 != getConvertMap().end())\n            {', 'if (it1 != getConvertMap().end() or it2 != getConvertMap().end())\n            {', **B12)
m('c12-clear', MR, 'getClassMap().erase(reg.type().hash_code());', 'getClassMap().clear();', **B12)
m('c12-remove-returns', OC, '''        if (event == "remove")
        {
''', '''        if (event == "remove")
        {
            if (getConvertMap().count(typesHashCombine(outputType, inputType)) == 0) return;
''', **B12)
m('c12q-loop', MR, '''            getClassMap().erase(reg.type().hash_code());
            getClassMap().erase(reg.pointerType().hash_code());
            getClassMap().erase(reg.sharedType().hash_code());''', '''            const size_t k0 = reg.type().hash_code();
            const size_t k1 = reg.pointerType().hash_code();
            const size_t k2 = reg.sharedType().hash_code();
            auto &classes = getClassMap();
            classes.erase(k2);
            classes.erase(k1);
            classes.erase(k0);''', **Q12)
m('c12q-helper', OC, '''            getConvertMap()[typesHashCombine(inputType, outputType)] = plugin;
            getConvertIoMap()''', '''            const auto key = typesHashCombine(inputType, outputType);
            getConvertMap()[key] = plugin;
            getConvertIoMap()''', **Q12)
m('c12q-elseif', OC, '        if (event == "remove")', '        else if (event == "remove")', **Q12)
m('c12q-find-erase', MR, 'getClassMap().erase(reg.type().hash_code());', '''{
                const auto itc = getClassMap().find(reg.type().hash_code());
                if (itc != getClassMap().end()) getClassMap().erase(itc);
            }''', **Q12)
m('c12q-early', MR, '''        if (event == "remove")
        {''', '''        if (event == "add") return;
        if (event != "remove") return;
        {''', **Q12)
MC='lib/Managed/Class.cpp'; AE='lib/Archive/ArchiveEntry.cpp'; WA='lib/Framework/WorkerActor.cpp'; JL='lib/ConfLoader/JITCompilerLoader.cpp'; RC='lib/Remote/Client.cpp'; DT='lib/Framework/DType.cpp'; PC='lib/Proxy/Convert.cpp'; RH='lib/Util/RefHolder.cpp'; TC='lib/Framework/TopologyCommit.cpp'
m('c25-wrong-end', MC, 'if (it != _impl->opaqueMethods.end()) return it->second;', 'if (it != _impl->opaqueMethods.find(name+"_") or not _impl->opaqueMethods.empty()) return it->second;', **B25)
m('c25-other-map-end', MC, 'if (it != _impl->opaqueStaticMethods.end()) return it->second;', 'if (not _impl->opaqueStaticMethods.empty()) return it->second;', **B25)
m('c25-inverted', AE, '''    const auto it = map.find(hash);
    if (it != map.end()) return *it->second;''', '''    const auto it = map.find(hash);
    if (hash != 0) return *it->second;''', **B25)
m('c25-null-node', R, '''        auto it = root->nodes.find(name);
        if (it == root->nodes.end()) return nullptr;
        root = &it->second;''', '''        auto it = root->nodes.find(name);
        if (root->nodes.empty()) return nullptr;
        root = &it->second;''', **B25)
m('c25-probe-assert', WA, 'if (probesIt != block->_probes.end())', 'if (not block->_probes.empty())', **B25)
m('c25-conf-or', JL, 'if (confFilePathIt == config.end() or confFilePathIt->second.empty())', 'if (confFilePathIt == config.end() and confFilePathIt->second.empty())', **B25)
m('c25-targets', JL, '    if (targetIt != config.end()) handle->target = targetIt->second;', '    if (not targetIt->second.empty()) handle->target = targetIt->second;', **B25)
m('c25-copypaste', JL, '    if (librariesIt != config.end()) for', '    if (includesIt != config.end()) for', **B25)
m('c25-node', RC, 'if (it == getNodeIdTable().end()) return "";', 'if (nodeId.empty()) return "";', **B25)
m('c25-alias-assert', DT, '        if (it == _aliasToElementType.end())\n', '        if (alias.empty())\n', **B25)
m('c25-proxy-log', PC, '    if (it == getConvertToLocalMap().end()) throw', '    if (it == getConvertToLocalMap().end() and proxy.getHandle()->getClassName().empty()) throw', **B25)
m('c25-refs', RH, 'if (it != _refs.end()) _refs.erase(it);', 'if (not _refs.empty()) _refs.erase(it);', **B25)
m('c25-cache', TC, 'if (it == _impl->srcToNetgressCache.end()) continue;', 'if (_impl->srcToNetgressCache.empty()) continue;', **B25)
m('c25-second', OC, '        if (itIo != getConvertIoMap().end()) for (const size_t intermHash : itIo->second)\n        {\n            auto it1 = getConvertMap().find(typesHashCombine(inputObj', '        if (it == getConvertMap().end()) for (const size_t intermHash : itIo->second)\n        {\n            auto it1 = getConvertMap().find(typesHashCombine(inputObj', **B25)
m('c25q-neg', MC, 'if (it != _impl->opaqueMethods.end()) return it->second;\n    throw', 'const bool known = not (it == _impl->opaqueMethods.end());\n    if (known) return it->second;\n    throw', **Q25)
m('c25q-ternary', RC, '    if (it == getNodeIdTable().end()) return "";\n    return it->second.toString();', '    return (it == getNodeIdTable().end())? std::string() : it->second.toString();', **Q25)
m('c25q-count', MC, '    auto it = _impl->opaqueMethods.find(name);\n    if (it != _impl->opaqueMethods.end()) return it->second;', '    if (_impl->opaqueMethods.count(name) != 0) return _impl->opaqueMethods.find(name)->second;', **Q25)
m('c25q-end-var', AE, '    const auto it = map.find(hash);\n    if (it != map.end()) return *it->second;', '    const auto last = map.end();\n    const auto it = map.find(hash);\n    if (last != it) return *it->second;', **Q25)
m('c25q-else', JL, '    if (targetIt != config.end()) handle->target = targetIt->second;\n    else', '    if (not (targetIt == config.end())) { handle->target = targetIt->second; }\n    else', **Q25)
m('c25q-at', DT, '''        auto it = _aliasToElementType.find(Poco::toLower(alias));
''', '''        const auto lower = Poco::toLower(alias);
        auto it = _aliasToElementType.find(lower);
''', **Q25)
m('c25q-loop', R, '''        if (it == root->nodes.end()) return nullptr;
        root = &it->second;''', '''        root = (it == root->nodes.end())? nullptr : &it->second;
        if (root == nullptr) return root;''', **Q25)
m('c25q-helper', RH, '''    auto it = std::find(_refs.begin(), _refs.end(), container);
    if (it != _refs.end()) _refs.erase(it);''', '''    const auto last = _refs.end();
    const auto it = std::find(_refs.begin(), last, container);
    if (it == last) return;
    _refs.erase(it);''', **Q25)
m('c25q-for-cond', JL, '    if (librariesIt != config.end()) for', '    const bool haveLibs = librariesIt != config.end();\n    if (haveLibs) for', **Q25)
