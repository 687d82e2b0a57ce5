m=lambda *a,**k: _m(*a,p='C17',**k)
q=lambda *a,**k: _m(*a,e=Q,p='C17',**k)
T='lib/Framework/Topology.cpp'; TC='lib/Framework/TopologyCommit.cpp'; TI='lib/Framework/TopologyImpl.hpp'; TS='lib/Framework/TopologySquashFlows.cpp'
W='lib/Framework/WorkerActor.cpp'; PF='lib/Framework/PortsAndFlows.hpp'
m('c17-dst-check', T, '''    if (flow.dst.obj)
    {
        std::vector<std::string> ins = getConnectable(dst).call("inputPortNames");
        if (std::find(ins.begin(), ins.end(), dstName) == ins.end())
            throw Pothos::TopologyConnectError("Pothos::Topology::connect()"''', '''    if (flow.dst.obj and flow.src.obj)
    {
        std::vector<std::string> ins = getConnectable(dst).call("inputPortNames");
        if (std::find(ins.begin(), ins.end(), dstName) == ins.end())
            throw Pothos::TopologyConnectError("Pothos::Topology::connect()"''')
m('c17-src-name', T, 'std::find(outs.begin(), outs.end(), srcName) == outs.end())\n            throw Pothos::TopologyConnectError("Pothos::Topology::connect()"', 'std::find(outs.begin(), outs.end(), dstName) == outs.end())\n            throw Pothos::TopologyConnectError("Pothos::Topology::connect()"')
m('c17-dup', T, '''    if (it != _impl->flows.end()) throw''', '''    if (it != _impl->flows.end() and flow.src.obj) throw''')
m('c17-names-early', T, '''    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
    if (it != _impl->flows.end()) throw''', '''    if (not flow.src.obj) _impl->inputPortNames.push_back(srcName);
    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
    if (it != _impl->flows.end()) throw''')
m('c17-names-dst', T, '        _impl->outputPortNames.push_back(dstName);\n    }\n    if (not flow.src.obj and not', '        _impl->outputPortNames.push_back(srcName);\n    }\n    if (not flow.src.obj and not')
m('c17-pass-names', T, '''        _impl->outputPortNames.push_back(dstName);
        _impl->outputPortInfo[dstName].name''', '''        _impl->outputPortInfo[dstName].name''')
m('c17-disc-order', T, '''    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
    if (it == _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()",
        Poco::format("this flow does not exist in the topology(%s)", flow.toString()));
''', '''    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
    if (_impl->flows.empty()) throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()",
        Poco::format("this flow does not exist in the topology(%s)", flow.toString()));
''')
m('c17-disc-names', T, '''    if (not flow.dst.obj)
    {
        auto &names = _impl->outputPortNames;''', '''    if (not flow.dst.obj and flow.src.obj)
    {
        auto &names = _impl->outputPortNames;''')
m('c17-disc-swap', T, '''        auto &names = _impl->inputPortNames;
        const auto nameIt = std::find(names.begin(), names.end(), srcName);''', '''        auto &names = _impl->inputPortNames;
        const auto nameIt = std::find(names.begin(), names.end(), dstName);''')
m('c17-all-del', T, 'if (flow.dst.obj) try{getInternalBlock', 'if (flow.dst.obj and not flow.src.obj) try{getInternalBlock')
m('c17-all-clear', T, '    _impl->flows.clear();\n', '    if (recursive) _impl->flows.clear();\n')
m('c17-old-not', TC, 'if (std::find(flatFlows.begin(), flatFlows.end(), flow) == flatFlows.end()) oldFlows', 'if (std::find(flatFlows.begin(), flatFlows.end(), flow) != flatFlows.end()) oldFlows')
m('c17-new-wrong', TC, 'if (std::find(activeFlatFlows.begin(), activeFlatFlows.end(), flow) == activeFlatFlows.end()) newFlows', 'if (std::find(flatFlows.begin(), flatFlows.end(), flow) != flatFlows.end()) newFlows')
m('c17-remove-new', TC, 'updateFlows(oldFlows, "remove");', 'updateFlows(newFlows, "remove");')
m('c17-no-remove', TC, '    updateFlows(oldFlows, "remove");', '    if (newFlows.empty()) updateFlows(oldFlows, "remove");')
m('c17-mgr-after', TC, ('    installBufferManagers(newFlows);\n', '    //update current flows\n'), ('', '    installBufferManagers(newFlows);\n    //update current flows\n'))
m('c17-mgr-old', TC, 'installBufferManagers(newFlows);', 'installBufferManagers(oldFlows);')
m('c17-act-excl', TC, 'getObjSetFromFlowList(newFlows, activeFlatFlows)', 'getObjSetFromFlowList(newFlows)')
m('c17-deact-excl', TC, ('getObjSetFromFlowList(oldFlows, _impl->activeFlatFlows)',), ('getObjSetFromFlowList(oldFlows)',))
m('c17-update-early', TC, ('    //send activate to all', '    //update current flows\n    _impl->activeFlatFlows = flatFlows;'), ('    _impl->activeFlatFlows = flatFlows;\n    //send activate to all', ''))
m('c17-update-late', TC, ('    //update current flows\n    _impl->activeFlatFlows = flatFlows;', '    //check all de/activate message results'), ('', '    _impl->activeFlatFlows = flatFlows;\n    //check all de/activate message results'))
m('c17-sub-dst', TC, 'actor.call("subscribeOutput", action, dst.name, src.obj.call("output", src.name));', 'actor.call("subscribeOutput", action, src.name, src.obj.call("output", src.name));')
m('c17-sub-actor', TC, 'auto actor = dst.obj.get("_actor");', 'auto actor = src.obj.get("_actor");')
m('c17-err-ignored', TC, '''    //check all de/activate message results
    const auto errors = collectFutureInfoErrors(infoFutures);
    if (not errors.empty()) throw''', '''    //check all de/activate message results
    const auto errors = collectFutureInfoErrors(infoFutures);
    if (not errors.empty() and not newFlows.empty()) throw''')
m('c17-err-collect', TC, '''            errors.append(future.block''', '''            if (errors.empty() and not ex.message().empty()) continue; errors.append(future.block''')
m('c17-future-lost', TC, '''        infoFutures.push_back(FutureInfo("deactivate()", block, result));''', '''        if (not flatFlows.empty()) infoFutures.push_back(FutureInfo("deactivate()", block, result));''')
m('c17-objset', TI, '        if (flow.dst.obj) uniques[flow.dst.uid]', '        if (flow.dst.obj and not flow.src.obj) uniques[flow.dst.uid]')
m('c17-objset-ex', TI, '        uniques.erase(flow.dst.uid);', '        if (uniques.erase(flow.src.uid) == 0) uniques.erase(flow.dst.uid);')
m('c17-objset-key', TI, 'uniques[flow.dst.uid] = flow.dst.obj;', 'uniques[flow.src.uid] = flow.dst.obj;')
m('c17-pass-cond', TC, 'if (flow.src == flowTail.src and flow.dst == flowHead.dst)', 'if (flow.src.name == flowTail.src.name and flow.dst == flowHead.dst)')
m('c17-pass-swap', TC, 'newFlow.src = flowHead.src;', 'newFlow.src = flowTail.src;')
m('c17-pass-drop', TC, 'if (flow.src.obj and flow.dst.obj)  outFlows', 'if (flow.src.obj or flow.dst.obj)  outFlows')
q('c17q-pass-tail', TC, 'if (not flowTail.dst.obj) continue;', 'if (not flowTail.dst.obj or not flowTail.src.obj) continue;')
m('c17-squash-flag', TS, '&resolvePorts, flow.dst, false', '&resolvePorts, flow.dst, true')
m('c17-squash-pass', TS, 'if (not flow.src.obj and not flow.dst.obj) flatFlows', 'if (not flow.src.obj or not flow.dst.obj) flatFlows')
m('c17-squash-uid', TS, 'if (flow.dst.obj) uidToObj[flow.dst.uid] = flow.dst.obj;', '')
m('c17-squash-sub', TS, 'flatFlows.insert(flatFlows.end(), flows.begin(), flows.end());', 'if (flatFlows.empty()) flatFlows.insert(flatFlows.end(), flows.begin(), flows.end());')
m('c17-squash-int', TS, 'flow.dst.obj = getInternalBlock(flow.dst.obj);', 'flow.dst.obj = getInternalBlock(flow.src.obj);')
m('c17-squash-comb', TS, 'flatFlow.dst = dst;', 'flatFlow.dst = src;')
m('c17-res-name', TS, 'if (isSource and flow.dst.name == portName and not flow.dst.obj)', 'if (isSource and flow.dst.name == portName)')
m('c17-res-push', TS, 'else ports.push_back(flow.dst);', 'else ports.push_back(flow.src);')
m('c17-res-flag', TS, 'if (flow.dst.obj) subPorts = resolvePorts(flow.dst, isSource);', 'if (flow.dst.obj) subPorts = resolvePorts(flow.dst, not isSource);')
m('c17-res-insert', TS, 'ports.insert(ports.end(), subPorts.begin(), subPorts.end());', 'if (ports.empty()) ports.insert(ports.end(), subPorts.begin(), subPorts.end());')
m('c17-act-found', W, 'if (found) throw PortAccessError("Pothos::WorkerActor::subscribePort()",\n            Poco::format("output', 'if (not found) throw PortAccessError("Pothos::WorkerActor::subscribePort()",\n            Poco::format("output')
m('c17-act-ports', W, 'auto &subscribers = this->inputs.at(myPortName)->_subscribers;\n    auto it = std::find(subscribers.begin(), subscribers.end(), outputPort);', 'auto &subscribers = this->inputs.at(myPortName)->_subscribers;\n    auto it = subscribers.begin();')
m('c17-act-mgr', W, 'if (subscribers.empty()) this->ensureOutputBufferManagerNoLock(myPortName);', 'if (found and subscribers.size() == 1) this->ensureOutputBufferManagerNoLock(myPortName);')
m('c17-act-cache', W, 'if (subscribers.empty()) bufferManagerTmpCache[false][myPortName].reset();', 'if (subscribers.empty()) bufferManagerTmpCache[true][myPortName].reset();')
# behaviour kept
q('c17q-lambda', T, '''    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
    if (it != _impl->flows.end()) throw''', '''    const auto &known = _impl->flows;
    const bool isNew = std::find(known.begin(), known.end(), flow) == known.end();
    if (not isNew) throw''')
q('c17q-filter', TC, '''    for (const auto &flow : _impl->activeFlatFlows)
    {
        if (std::find(flatFlows.begin(), flatFlows.end(), flow) == flatFlows.end()) oldFlows.push_back(flow);
    }''', '''    for (size_t i = 0; i < activeFlatFlows.size(); i++)
    {
        const auto &flow = activeFlatFlows[i];
        const bool wanted = std::find(flatFlows.begin(), flatFlows.end(), flow) != flatFlows.end();
        if (wanted) continue;
        oldFlows.push_back(flow);
    }''')
q('c17q-copyif', TC, '''    std::vector<Flow> oldFlows;
    for (const auto &flow : _impl->activeFlatFlows)
    {
        if (std::find(flatFlows.begin(), flatFlows.end(), flow) == flatFlows.end()) oldFlows.push_back(flow);
    }''', '''    std::vector<Flow> oldFlows(_impl->activeFlatFlows);
    oldFlows.erase(std::remove_if(oldFlows.begin(), oldFlows.end(), [&](const Flow &flow){return std::find(flatFlows.begin(), flatFlows.end(), flow) != flatFlows.end();}), oldFlows.end());''')
q('c17q-swap-active', TC, ('    _impl->activeFlatFlows = flatFlows;\n', ), ('    const auto wasActive = _impl->activeFlatFlows;\n    _impl->activeFlatFlows = flatFlows;\n    (void)wasActive;\n',))
q('c17q-toact', TC, '''    for (auto block : getObjSetFromFlowList(newFlows, activeFlatFlows))
    {''', '''    const auto toActivate = getObjSetFromFlowList(newFlows, activeFlatFlows);
    for (const auto &block : toActivate)
    {''')
q('c17q-inline', TC, '''        std::shared_future<void> result(std::async(std::launch::async, setActiveState, block, true));''', '''        std::shared_future<void> result(std::async(std::launch::async, [block](void){block.get("_actor").call("setActiveStateOn");}));''')
q('c17q-subscribe', TC, '''        auto actor = src.obj.get("_actor");
        actor.call("subscribeInput", action, src.name, dst.obj.call("input", dst.name));''', '''        const auto acceptor = dst.obj.call("input", dst.name);
        src.obj.get("_actor").call("subscribeInput", action, src.name, acceptor);''')
q('c17q-objset', TI, '''        if (flow.src.obj) uniques[flow.src.uid] = flow.src.obj;
        if (flow.dst.obj) uniques[flow.dst.uid] = flow.dst.obj;''', '''        for (const auto port : {&flow.src, &flow.dst})
        {
            if (port->obj) uniques[port->uid] = port->obj;
        }''')
q('c17q-objset2', TI, '''        if (flow.src.obj) uniques[flow.src.uid] = flow.src.obj;''', '''        if (flow.src.obj) uniques.emplace(flow.src.uid, flow.src.obj);''')
q('c17q-pass', TC, '''        if (flow.src.obj or flow.dst.obj) continue;''', '''        const bool through = not flow.src.obj and not flow.dst.obj;
        if (not through) continue;''')
q('c17q-pass2', TC, '''        if (flow.src.obj and flow.dst.obj)  outFlows.push_back(flow);''', '''        if (not flow.src.obj) continue;
        if (not flow.dst.obj) continue;
        outFlows.push_back(flow);''')
q('c17q-squash', TS, '''        if (not flow.src.obj) continue;
        if (not flow.dst.obj) continue;''', '''        const bool inner = flow.src.obj and flow.dst.obj;
        if (not inner) continue;''')
q('c17q-squash2', TS, '''    for (auto &flow : flatFlows)
    {
        flow.src.obj = getInternalBlock(flow.src.obj);
        flow.dst.obj = getInternalBlock(flow.dst.obj);
    }''', '''    for (size_t i = 0; i < flatFlows.size(); i++)
    {
        auto &src = flatFlows[i].src; auto &dst = flatFlows[i].dst;
        src.obj = getInternalBlock(src.obj);
        dst.obj = getInternalBlock(dst.obj);
    }''')
q('c17q-res', TS, '''            if (flow.src.obj) subPorts = resolvePorts(flow.src, isSource);
            else ports.push_back(flow.src);''', '''            if (not flow.src.obj) ports.push_back(flow.src);
            else subPorts = resolvePorts(flow.src, true);''')
q('c17q-act', W, '''    if (action == "remove") //remove from the input port's subscribers list
    {''', '''    else if (action == "remove") //remove from the input port's subscribers list
    {''')
q('c17q-act2', W, '''    if (subscribers.empty()) bufferManagerTmpCache[false][myPortName].reset();
''', '''    const bool unused = subscribers.empty();
    if (unused) bufferManagerTmpCache[false][myPortName].reset();
''')
q('c17q-disc', T, '''        const auto nameIt = std::find(names.begin(), names.end(), srcName);
        if (nameIt != names.end()) names.erase(nameIt);''', '''        for (auto nameIt = names.begin(); nameIt != names.end(); ++nameIt)
        {
            if (*nameIt != srcName) continue;
            names.erase(nameIt);
            break;
        }''')
q('c17q-disc2', T, '    _impl->flows.erase(it);', '    _impl->flows.erase(_impl->flows.begin() + (it - _impl->flows.begin()));')
q('c17q-conn', T, '''    if (not flow.src.obj and not flow.dst.obj)
    {
        _impl->inputPortNames.push_back(srcName);''', '''    const bool passThrough = not flow.src.obj and not flow.dst.obj;
    if (passThrough)
    {
        _impl->inputPortNames.push_back(srcName);''')
q('c17q-all', T, '''    for (const auto &flow : _impl->flows)
    {
        if (flow.src.obj) try{getInternalBlock(flow.src.obj)''', '''    const auto removed = _impl->flows;
    for (const auto &flow : removed)
    {
        if (flow.src.obj) try{getInternalBlock(flow.src.obj)''')
