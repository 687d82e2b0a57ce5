def m(n, *a, **k):
    MUTANTS.append((n, k.get('p','C12'), [tuple(a[i:i+3]) for i in range(0, len(a), 3)], k.get("e", C)))
q=lambda *a,**k: m(*a, e=Q, **k)
OC='lib/Object/Convert.cpp'; CM='lib/Object/Compare.cpp'; HS='lib/Object/Hash.cpp'; TS='lib/Object/ToString.cpp'; MR='lib/Managed/Registry.cpp'; PC='lib/Proxy/Convert.cpp'
m('c12b-io-wrongkey', OC, 'getConvertIoMap()[inputType.hash_code()].insert(outputType.hash_code());', 'getConvertIoMap()[outputType.hash_code()].insert(inputType.hash_code());')
m('c12b-io-erase-all', OC, 'getConvertIoMap()[inputType.hash_code()].erase(outputType.hash_code());', 'getConvertIoMap().erase(inputType.hash_code());')
m('c12b-io-noremove', OC, '            getConvertIoMap()[inputType.hash_code()].erase(outputType.hash_code());\n', '')
m('c12b-remove-one', HS, 'getHashFcnMap().erase(call.type(0).hash_code());', 'getHashFcnMap().erase(call.type(-1).hash_code());')
m('c12b-add-emplace', CM, 'getCompareMap()[typesHashCombine(t0, t1)] = plugin;', 'getCompareMap()[typesHashCombine(t0, t1)] = plugin;\n            getCompareMap()[typesHashCombine(t1, t0)] = plugin;')
m('c12b-proxy-map', PC, 'getConvertToLocalMap().erase(hashIt(name, pair.first));', 'getConvertToProxyMap().erase(hashIt(name, pair.first));')
m('c12b-proxy-second', PC, 'getConvertToLocalMap()[hashIt(name, pair.first)] = plugin;', 'getConvertToLocalMap()[hashIt(nodes.back(), pair.first)] = plugin;')
m('c12b-ts-guard', TS, 'if (event == "remove")', 'if (event == "remove" and getToStringMap().size() > 1)')
m('c12b-hash-early', HS, '        if (event == "add")\n', '        if (getHashFcnMap().count(call.type(0).hash_code()) != 0) return;\n        if (event == "add")\n')
m('c12b-mr-order', MR, '''        const auto &reg = plugin.getObject().extract<Pothos::ManagedClass>();

        std::lock_guard<Pothos::Util::SpinLockRW> lock(getMapMutex());
        if (event == "add")
        {
            getClassMap()[reg.type().hash_code()] = plugin;''', '''        if (event == "add")
        {
            std::lock_guard<Pothos::Util::SpinLockRW> lock(getMapMutex());
            getClassMap()[plugin.getObject().type().hash_code()] = plugin;
        }
        const auto &reg = plugin.getObject().extract<Pothos::ManagedClass>();

        std::lock_guard<Pothos::Util::SpinLockRW> lock(getMapMutex());
        if (event == "add")
        {
            getClassMap()[reg.type().hash_code()] = plugin;''')

m('c12b-conv-any', OC, '        if (event == "remove")', '        if (event != "add")')

m('c12b-lookup-insert', CM, 'auto it = getCompareMap().find(typesHashCombine(this->type(), other.type()));', 'getCompareMap()[typesHashCombine(this->type(), other.type())];\n    auto it = getCompareMap().find(typesHashCombine(this->type(), other.type()));')
# refactors
q('c12b-q-iter', OC, 'getConvertIoMap()[inputType.hash_code()].erase(outputType.hash_code());', 'auto ioIt = getConvertIoMap().find(inputType.hash_code());\n            if (ioIt != getConvertIoMap().end()) ioIt->second.erase(outputType.hash_code());')
q('c12b-q-iter2', OC, 'getConvertIoMap()[inputType.hash_code()].erase(outputType.hash_code());', 'auto ioIt = getConvertIoMap().find(inputType.hash_code());\n            if (ioIt != getConvertIoMap().end())\n            {\n                ioIt->second.erase(outputType.hash_code());\n                if (ioIt->second.empty()) getConvertIoMap().erase(ioIt);\n            }')
q('c12b-q-key', CM, '''        if (event == "add")
        {
            getCompareMap()[typesHashCombine(t0, t1)] = plugin;
        }
        if (event == "remove")
        {
            getCompareMap().erase(typesHashCombine(t0, t1));
        }''', '''        const size_t key = typesHashCombine(t0, t1);
        auto &map = getCompareMap();
        if (event == "add") map[key] = plugin;
        else if (event == "remove") map.erase(key);''')
q('c12b-q-isadd', HS, '''        if (event == "add")
        {
            getHashFcnMap()[call.type(0).hash_code()] = plugin;
        }
        if (event == "remove")
        {''', '''        const bool isAdd = event == "add";
        const bool isRemove = event == "remove";
        if (isAdd)
        {
            getHashFcnMap()[call.type(0).hash_code()] = plugin;
        }
        if (isRemove)
        {''')
q('c12b-q-switch', TS, '''        if (event == "add")
        {
            getToStringMap()[t.hash_code()] = plugin;
        }
        if (event == "remove")
        {
            getToStringMap().erase(t.hash_code());
        }''', '''        if (event != "add" and event != "remove") return;
        const auto hash = t.hash_code();
        if (event == "remove") getToStringMap().erase(hash);
        else getToStringMap()[hash] = plugin;''')
q('c12b-q-list', MR, '''        if (event == "add")
        {
            getClassMap()[reg.type().hash_code()] = plugin;
            getClassMap()[reg.pointerType().hash_code()] = plugin;
            getClassMap()[reg.sharedType().hash_code()] = plugin;
        }
        if (event == "remove")
        {
            getClassMap().erase(reg.type().hash_code());
            getClassMap().erase(reg.pointerType().hash_code());
            getClassMap().erase(reg.sharedType().hash_code());
        }''', '''        const size_t hashes[] = {reg.type().hash_code(), reg.pointerType().hash_code(), reg.sharedType().hash_code()};
        for (const auto hash : hashes)
        {
            if (event == "add") getClassMap()[hash] = plugin;
            if (event == "remove") getClassMap().erase(hash);
        }''')
q('c12b-q-helper', HS, 'static void handleHashFcnPluginEvent(', '''static bool isHashCall(const Pothos::Callable &call)
{
    return call.type(-1) == typeid(size_t) and call.getNumArgs() == 1;
}

static void handleHashFcnPluginEvent(''', HS, '''        if (call.type(-1) != typeid(size_t)) return;
        if (call.getNumArgs() != 1) return;
''', '''        if (not isHashCall(call)) return;
''')
q('c12b-q-helper2', TS, 'static void handleToStringPluginEvent(', '''static void updateToStringMap(const size_t hash, const Pothos::Plugin &plugin, const std::string &event)
{
    std::lock_guard<Pothos::Util::SpinLockRW> lock(getMapMutex());
    if (event == "add") getToStringMap()[hash] = plugin;
    if (event == "remove") getToStringMap().erase(hash);
}

static void handleToStringPluginEvent(''', TS, '''        std::lock_guard<Pothos::Util::SpinLockRW> lock(getMapMutex());
        if (event == "add")
        {
            getToStringMap()[t.hash_code()] = plugin;
        }
        if (event == "remove")
        {
            getToStringMap().erase(t.hash_code());
        }''', '''        updateToStringMap(t.hash_code(), plugin, event);''')
q('c12b-q-insert', PC, 'getConvertToLocalMap()[hashIt(name, pair.first)] = plugin;', 'const auto key = hashIt(name, pair.first);\n                getConvertToLocalMap()[key] = plugin;')
q('c12b-q-proxykey', PC, '''            std::lock_guard<Pothos::Util::SpinLockRW> lock(getMapToProxyMutex());
            if (event == "add")
            {
                getConvertToProxyMap()[hashIt(name, callable.type(1))] = plugin;
            }
            if (event == "remove")
            {
                getConvertToProxyMap().erase(hashIt(name, callable.type(1)));
            }''', '''            const auto hash = hashIt(name, callable.type(1));
            std::lock_guard<Pothos::Util::SpinLockRW> lock(getMapToProxyMutex());
            auto &map = getConvertToProxyMap();
            if (event == "add") map[hash] = plugin;
            else if (event == "remove") map.erase(hash);''')
q('c12b-q-negated', OC, '''        if (call.type(-1) == typeid(void)) return;
        if (call.getNumArgs() != 1) return;
''', '''        if (call.type(-1) == typeid(void) or call.getNumArgs() != 1)
        {
            return;
        }
''')
q('c12b-q-canconv', OC, '''    return (it != getConvertMap().end());
}''', '''    if (it != getConvertMap().end()) return true;
    return false;
}''')
q('c12b-q-lookup', OC, '''    const auto &call = it->second.getObject().extract<Pothos::Callable>();
    return call.opaqueCall(&inputObj, 1);''', '''    const Pothos::Plugin &plugin = it->second;
    const auto &call = plugin.getObject().extract<Pothos::Callable>();
    return call.opaqueCall(&inputObj, 1);''')
