m=lambda *a,**k: _m(*a,p='C26',**k)
q=lambda *a,**k: _m(*a,e=Q,p='C26',**k)
CA='lib/Callable/Callable.cpp'; IP='include/Pothos/Framework/InputPortImpl.hpp'; BI='include/Pothos/Framework/BlockImpl.hpp'
BD='lib/Util/BlockDescription.cpp'; EE='lib/Util/EvalEnvironment.cpp'; EL='lib/Util/EvalEnvironmentListParsers.cpp'
PA='lib/Framework/WorkerActorPortAllocation.cpp'
m('c26-bound-le', CA, '_boundArgs.size() > i and _boundArgs[i]', '_boundArgs.size() >= i and _boundArgs[i]')
m('c26-bound-getnum', CA, 'std::min(_impl->getNumArgs(), _boundArgs.size())', '_impl->getNumArgs()')
m('c26-bind-resize', CA, '_boundArgs.size() <= argNo) _boundArgs.resize(argNo+1)', '_boundArgs.size() < argNo) _boundArgs.resize(argNo+1)')
m('c26-bind-resize2', CA, '_boundArgs.resize(argNo+1)', '_boundArgs.resize(argNo)')
m('c26-async-peek', IP, '    if (_asyncMessages.empty()) return Pothos::Object();\n    return _asyncMessages.front().first;', '    return _asyncMessages.front().first;')
m('c26-async-pop', IP, '    if (_asyncMessages.empty()) return Pothos::Object();\n    auto msg', '    auto msg')
m('c26-block-input', BI, 'if (index >= _indexedInputs.size())', 'if (index > _indexedInputs.size())')
m('c26-block-cross', BI, 'if (index >= _indexedOutputs.size())', 'if (index >= _indexedInputs.size())')
m('c26-desc-cr', BD, '!line.empty() && (line.back()', '(line.back()')
m('c26-desc-kvp', BD, 'if (kvp.size() == 2) kwargs', 'if (kvp.size() >= 1) kwargs')
m('c26-eval-list', EE, "expr.size() >= 2 and expr.front() == '[' and", "expr.front() == '[' and")
m('c26-eval-kv', EE, 'if (keyVal.size() != 2) throw', 'if (keyVal.size() == 0) throw')
m('c26-eval-kv3', EE, 'if (keyVal.size() != 2) throw', 'if (keyVal.empty() or keyVal.size() > 2) throw')
m('c26-specials', EL, 'not specials.empty() and (', 'not field.empty() and (')
m('c26-logger', 'lib/System/Logger.cpp', "not _outbuf.empty() and (_outbuf.back() == '\\n' or _flush)", "(_outbuf.back() == '\\n' or _flush)")
m('c26-strip', PA, 'not indexedPorts.empty() and indexedPorts.back()', 'indexedPorts.back()')
m('c26-pidx', PA, 'port.index() >= 0 and size_t(port.index()) < indexedPorts.size()', 'port.index() >= 0 and size_t(port.index()) <= indexedPorts.size()')
m('c26-mgr', 'lib/Framework/Builtin/GenericBufferManager.cpp', 'i+1 < managedBuffers.size()', 'i < managedBuffers.size()')
m('c26-mgr0', 'lib/Framework/Builtin/GenericBufferManager.cpp', 'i+1 < managedBuffers.size()', 'i < managedBuffers.size()-1')
m('c26-pool', 'lib/Framework/BufferPool.cpp', 'i < _buffs.size(); i++', 'i <= _buffs.size(); i++')
m('c26-poolthr', 'lib/Framework/ThreadEnvironment.cpp', 'if (_threadPool.size() > _handleToTask.size())', 'if (_threadPool.size() >= _handleToTask.size())')
m('c26-local', 'lib/Managed/Builtin/ManagedHandle.cpp', 'std::vector<Pothos::Proxy> localArgs(numArgs);', 'std::vector<Pothos::Proxy> localArgs(argObjs.size());')
m('c26-label', 'include/Pothos/Framework/OutputPortImpl.hpp', '_postedLabels.emplace_back(std::forward<ValueType>(label)...);\n    _postedLabels.back()', '_postedLabels.back()')
m('c26-wait', 'lib/Framework/InputPort.cpp', 'while (not postedBuffers.empty())', 'while (not postedLabels.empty())')
m('c26-vec', 'lib/Object/Builtin/ConvertCommonImpl.hpp', 'std::vector<OutType> out(in.size());\n        for (size_t i = 0; i < out.size(); i++)', 'std::vector<OutType> out; out.reserve(in.size());\n        for (size_t i = 0; i < in.size(); i++)')
# behaviour kept
q('c26-q-poolrange', 'lib/Framework/BufferPool.cpp', '''    for (size_t i = 0; i < _buffs.size(); i++)
    {
        if (_buffs[i].unique()) return _buffs[i];
    }
''', '''    for (auto &buff : _buffs)
    {
        if (buff.unique()) return buff;
    }
''')
q('c26-q-poolne', 'lib/Framework/BufferPool.cpp', 'i < _buffs.size(); i++', 'i != _buffs.size(); ++i')
q('c26-q-poolwhile', 'lib/Framework/BufferPool.cpp', '''    for (size_t i = 0; i < _buffs.size(); i++)
    {
        if (_buffs[i].unique()) return _buffs[i];
    }
''', '''    size_t i = 0;
    const size_t num = _buffs.size();
    while (i < num)
    {
        if (_buffs[i].unique()) return _buffs[i];
        i++;
    }
''')
q('c26-q-poolhelper', 'lib/Framework/BufferPool.cpp', '''    for (size_t i = 0; i < _buffs.size(); i++)
    {
        if (_buffs[i].unique()) return _buffs[i];
    }
''', '''    for (size_t i = 0; i < _buffs.size(); i++)
    {
        if ([](const std::vector<BufferChunk> &b, const size_t k){return b[k].unique();}(_buffs, i)) return _buffs[i];
    }
''')
q('c26-q-input', BI, '''    if (index >= _indexedInputs.size()) throw PortAccessError(
        "Pothos::Block::input("+std::to_string(index)+")", "input port index does not exist");
    return _indexedInputs[index];''', '''    if (index < _indexedInputs.size()) return _indexedInputs[index];
    throw PortAccessError(
        "Pothos::Block::input("+std::to_string(index)+")", "input port index does not exist");''')
q('c26-q-peek', IP, '    if (_asyncMessages.empty()) return Pothos::Object();\n    return _asyncMessages.front().first;', '    return (_asyncMessages.size() > 0) ? Pothos::Object(_asyncMessages.front().first) : Pothos::Object();')
q('c26-q-eval', EE, "const auto inBrackets = expr.size() >= 2 and expr.front() == '[' and expr.back() == ']';", "const bool longEnough = expr.size() >= 2;\n    const auto inBrackets = longEnough and expr[0] == '[' and expr[expr.size()-1] == ']';")
q('c26-q-kv', EE, 'if (keyVal.size() != 2) throw', 'const bool pair = (keyVal.size() == 2);\n        if (not pair) throw')
q('c26-q-bound', CA, '_boundArgs.size() > i and _boundArgs[i]', 'i < _boundArgs.size() and _boundArgs.at(i)')
q('c26-q-min', CA, 'i < std::min(_impl->getNumArgs(), _boundArgs.size())', 'i < _impl->getNumArgs() and i < _boundArgs.size()')
q('c26-q-desc', BD, 'if (kvp.size() == 2) kwargs[kvp[0]] = exprToJSON(kvp[1]);\n        else args.push_back(exprToJSON(arg));', 'if (kvp.size() != 2)\n        {\n            args.push_back(exprToJSON(arg));\n            continue;\n        }\n        kwargs[kvp[0]] = exprToJSON(kvp[1]);')
q('c26-q-cr', BD, "if (!line.empty() && (line.back() == '\\r')) line.pop_back();", "if (line.length() != 0 and line[line.length()-1] == '\\r') line.resize(line.length()-1);")
q('c26-q-mgr', 'lib/Framework/Builtin/GenericBufferManager.cpp', '''        for (size_t i = 0; i+1 < managedBuffers.size(); i++)
        {
            managedBuffers[i].setNextBuffer(managedBuffers[i+1]);
        }''', '''        for (size_t i = 1; i < managedBuffers.size(); i++)
        {
            managedBuffers[i-1].setNextBuffer(managedBuffers[i]);
        }''')
