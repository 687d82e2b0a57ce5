IPH='include/Pothos/Framework/InputPortImpl.hpp'
OPH='include/Pothos/Framework/OutputPortImpl.hpp'
_m('c09-overconsume', IP, '    if (numBytes > _bufferAccumulator.getTotalBytesAvailable())', '    if (numBytes > _bufferAccumulator.getTotalBytesAvailable() + 8)')
_m('c09-labelshift', IP, '_inputInlineMessages[i].index -= numBytes;', '_inputInlineMessages[i].index -= numBytes/this->dtype().size();')
_m('c09-labelshift1', IP, 'for (size_t i = 0; i < _inputInlineMessages.size(); i++)', 'for (size_t i = 1; i < _inputInlineMessages.size(); i++)')
_m('c09-cur-late', IP, '''                label.index += currentBytes; //increment by enqueued bytes
                _inputInlineMessages.push_back(std::move(label));
            }
            postedLabels.clear();
''', '''                _inputInlineMessages.push_back(std::move(label));
            }
            postedLabels.clear();
''')
_m('c09-postedclear', IP, 'this->bufferAccumulatorPushNoLock(BufferChunk(postedBuffers[i]));', 'this->bufferAccumulatorPushNoLock(std::move(postedBuffers[i]));')
_m('c09-auto-ref', IP, 'for (auto label : postedLabels)', 'for (auto &label : postedLabels)')
_m('c09-typesize', IP, '(this->dtype().size() == buffer.dtype.size())) //size match', '(this->dtype().size() >= buffer.dtype.size())) //size match')
_m('c09-total', IP, '        _totalBuffers++;\n', '        if (_bufferAccumulator.getTotalBytesAvailable() != 0) _totalBuffers++;\n')
_m('c09-front-adjust', IPH, '_inlineMessages.back().adjust(1, this->dtype().size());', '_inlineMessages.front().adjust(1, this->dtype().size());')
_m('c09-front-once', IPH, 'while (not _inputInlineMessages.empty())', 'if (not _inputInlineMessages.empty())')
_m('c09-consume', IPH, '_pendingElements += numElements;', '_pendingElements = numElements;')
_m('c09-msgtotal', IPH, '    auto msg = this->asyncMessagesPop();\n    _totalMessages++;', '    auto msg = this->asyncMessagesPop();\n    if (msg) _totalMessages++;')
_m('c09-pop-el', OPH, 'this->bufferManagerPop(numElements*this->dtype().size());', 'this->bufferManagerPop(numElements*_buffer.dtype.size());')
_m('c09-post-dtype', OPH, '    if (not r.dtype) r.dtype = this->dtype();\n\n    _totalElements += r.elements();', '    _totalElements += r.length/this->dtype().size();')
_m('c09-label-adj', OPH, '_postedLabels.back().adjust(this->dtype().size(), 1);', '_postedLabels.back().index *= this->dtype().size();')
_m('c09-getbuf', OP, 'if (_buffer.length >= numBytes)', 'if (_buffer.length + dtype.size() > numBytes)')
_m('c09-getbuf2', OP, '    out.length = numBytes;\n', '')
_m('c09-getbuf3', OP, '        if (_bufferFromManager)\n', '        if (_bufferManager)\n')
_m('c09-msg-slot', OP, 'if (subscriber->isSlot() and async.type() == typeid(ObjectVector))', 'if (async.type() == typeid(ObjectVector))')
_m('c09-lt', WA, 'if (allLabels[i].index < port._pendingElements) numLabels++;', 'if (allLabels[i].index <= port._pendingElements) numLabels++;')
_m('c09-adj', WA, '            else allLabels[i].index -= port._pendingElements;', '            else if (allLabels[i].index < port._elements) allLabels[i].index -= port._pendingElements;')
_m('c09-popbytes', WA, 'port.bufferAccumulatorPop(bytes);', 'port.bufferAccumulatorPop(std::min(bytes, port._buffer.length));')
_m('c09-totel', WA, '            port.bufferAccumulatorPop(bytes);\n        }', '            port.bufferAccumulatorPop(bytes);\n            if (numLabels != 0) continue;\n        }')
_m('c09-erase', WA, 'allLabels.erase(allLabels.begin(), allLabels.begin()+numLabels);\n', 'allLabels.erase(allLabels.begin(), allLabels.begin()+std::max<size_t>(numLabels, 1));\n')
_m('c09-iterall', WA, 'LabelIteratorRange(allLabels.data(), allLabels.data()+numLabels);', 'LabelIteratorRange(allLabels.data(), allLabels.data()+allLabels.size());')
_m('c09-last', WA, 'const bool last = (&subscriber == &port._subscribers.back());', 'const bool last = (&subscriber == &port._subscribers.front());')
_m('c09-last2', WA, 'subscriber->bufferLabelPush(last,', 'subscriber->bufferLabelPush(true,')
_m('c09-onlybufs', WA, 'if (not postedLabels.empty() or not postedBuffers.empty())', 'if (not postedBuffers.empty())')
_m('c09-nosort', WA, 'if (not postedLabels.empty()) std::sort', 'if (postedLabels.size() > 2) std::sort')
_m('c09-noclear', WA, '        postedBuffers.clear();\n', '')
_m('c09-poplen', WA, 'else port.bufferManagerPop(buffer.length);', 'else port.bufferManagerPop(buffer.getBuffer().getLength());')
_m('c09-reserve', WA, 'port._elements - port._pendingElements < port._reserveElements', 'port._elements < port._reserveElements')
_m('c09-reserve2', WA, 'if (buffer.length != 0 and buffer.length < port._reserveElements*port._dtype.size())', 'if (buffer.length != 0)')
_m('c09-frommgr', WA, '            if (port._bufferFromManager)\n            {\n                if (buffer.length >', '            if (port._bufferManager)\n            {\n                if (buffer.length >')
_m('c09-inplace', WA, 'port._buffer.useCount() == 2 and //2 -> accumulator + this port', 'port._buffer.useCount() <= 3 and')
_m('c09-amalg', WA, ''' and //2 -> accumulator + this port
            port._buffer.getEnd() <= port._buffer.getBuffer().getEnd()) //no amalgamation''', ')')
_m('c09-rbwsize', WA, '''port._readBeforeWritePort != nullptr and
        port.dtype().size() == port._readBeforeWritePort->dtype().size();''', 'port._readBeforeWritePort != nullptr;')
_m('c09-minall', WA, 'block->_workInfo.minAllOutElements = std::min(block->_workInfo.minAllOutElements, port._elements);', 'block->_workInfo.minAllOutElements = std::min(block->_workInfo.minOutElements, port._elements);')
_m('c09-minel', WA, 'block->_workInfo.minElements = std::min(block->_workInfo.minInElements, block->_workInfo.minOutElements);', 'block->_workInfo.minElements = std::max(block->_workInfo.minInElements, block->_workInfo.minOutElements);')
_m('c09-pend', WA, '        port._pendingElements = 0;\n        if (port.index()', '        if (port.index()')
_m('c09-require', WA, 'port.bufferAccumulatorRequire(requireElems*port.dtype().size());', 'port.bufferAccumulatorRequire(requireElems);')
_m('c09-elems0', WA, 'if (port._elements == 0) return false;', '')
_m('c09-token', WA, 'if (port.tokenManagerEmpty()) return false;', 'if (port.isSignal() and port.tokenManagerEmpty()) return false;')
_m('c09-resv', WA, 'if (port._elements >= port._reserveElements) reserveReached = true;', 'if (port._elements != 0) reserveReached = true;')
_m('c09-order', WA, 'return reserveReached or hasInputMessage or (not hasBufferedPorts);', 'return reserveReached or hasInputMessage or hasBufferedPorts;')
# refactorings
_m('c09-r-auto', WA, 'for (size_t i = 0; i < allLabels.size(); i++)\n        {\n            if (allLabels[i].index < port._pendingElements) numLabels++;\n            //adjust labels index for new relative position\n            else allLabels[i].index -= port._pendingElements;\n        }',
   'for (auto &label : allLabels)\n        {\n            if (label.index >= port._pendingElements) label.index -= port._pendingElements;\n            else ++numLabels;\n        }', Q)
_m('c09-r-bytes', WA, '        if (bytes != 0)\n        {\n            port.bufferAccumulatorPop(bytes);\n        }', '        if (port._pendingElements > 0) port.bufferAccumulatorPop(port.dtype().size()*port._pendingElements);', Q)
_m('c09-r-idx', WA, '''            for (const auto &subscriber : port._subscribers)
            {
                const bool last = (&subscriber == &port._subscribers.back());
                subscriber->bufferLabelPush(last, postedLabels, postedBuffers);
            }''', '''            const size_t numSubs = port._subscribers.size();
            for (size_t i = 0; i < numSubs; i++)
            {
                port._subscribers[i]->bufferLabelPush(i+1 == numSubs, postedLabels, postedBuffers);
            }''', Q)
_m('c09-r-min', WA, 'block->_workInfo.minAllOutElements = std::min(block->_workInfo.minAllOutElements, port._elements);', 'if (port._elements < block->_workInfo.minAllOutElements) block->_workInfo.minAllOutElements = port._elements;', Q)
_m('c09-r-iter', IP, '''    for (size_t i = 0; i < _inputInlineMessages.size(); i++)
    {
        _inputInlineMessages[i].index -= numBytes;
    }''', '''    const size_t numQueued = _inputInlineMessages.size();
    for (size_t i = 0; i != numQueued; ++i)
    {
        auto &queued = _inputInlineMessages[i];
        queued.index = queued.index - numBytes;
    }''', Q)
_m('c09-r-front', IPH, '''        _inlineMessages.push_back(std::move(_inputInlineMessages.front()));
        _inlineMessages.back().adjust(1, this->dtype().size());
''', '''        auto label = std::move(_inputInlineMessages.front());
        label.adjust(1, this->dtype().size());
        _inlineMessages.push_back(std::move(label));
''', Q)
_m('c09-r-post', OPH, '    _totalElements += r.elements();\n    _totalBuffers++;\n    _workEvents++;', '    _workEvents++;\n    _totalBuffers += 1;\n    _totalElements = _totalElements + r.elements();', Q)
_m('c09-r-msg', OP, '''        if (subscriber->isSlot() and async.type() == typeid(ObjectVector))
        {
            subscriber->slotCallsPush(async, token);
        }
        else
        {
            subscriber->asyncMessagesPush(async, token);
        }''', '''        const bool isCall = async.type() == typeid(ObjectVector);
        if (not isCall or not subscriber->isSlot()) {subscriber->asyncMessagesPush(async, token); continue;}
        subscriber->slotCallsPush(async, token);''', Q)
_m('c09-r-getbuf', OP, 'if (_buffer.length >= numBytes)', 'if (not (numBytes > _buffer.length))', Q)
_m('c09-r-bool', WA, 'if (port._elements >= port._reserveElements) reserveReached = true;', 'reserveReached = reserveReached or (port._elements >= port._reserveElements);', Q)
_m('c09-r-bool2', WA, 'if (port._elements >= port._reserveElements) reserveReached = true;', 'reserveReached |= (port._elements >= port._reserveElements);', Q)
_m('c09-r-ret', WA, 'return reserveReached or hasInputMessage or (not hasBufferedPorts);', 'if (not hasBufferedPorts) return true;\n    return hasInputMessage or reserveReached;', Q)
MUTANTS.append(('c09-r-helper', 'C09', [(WA, '''        //pop the consumed bytes from the accumulator
        if (bytes != 0)
        {
            port.bufferAccumulatorPop(bytes);
        }
        port._buffer.clear(); //clear reference

        //move consumed elements into total
        port._totalElements += port._pendingElements;
''', '        this->finishInput(port, bytes);\n'), (WA, 'void Pothos::WorkerActor::postWorkTasks(void)\n', '''void Pothos::WorkerActor::finishInput(InputPort &port, const size_t bytes)
{
    if (bytes != 0) port.bufferAccumulatorPop(bytes);
    port._buffer.clear();
    port._totalElements += port._pendingElements;
}

void Pothos::WorkerActor::postWorkTasks(void)
'''), ('lib/Framework/WorkerActor.hpp', '    void postWorkTasks(void);', '    void postWorkTasks(void);\n    void finishInput(InputPort &port, const size_t bytes);')], Q))
MUTANTS.append(('c09-r-deliver', 'C09', [(WA, '''            for (const auto &subscriber : port._subscribers)
            {
                const bool last = (&subscriber == &port._subscribers.back());
                subscriber->bufferLabelPush(last, postedLabels, postedBuffers);
            }''', '            this->deliver(port);\n'), (WA, 'void Pothos::WorkerActor::postWorkTasks(void)\n', '''void Pothos::WorkerActor::deliver(OutputPort &port)
{
    for (auto it = port._subscribers.begin(); it != port._subscribers.end(); ++it)
    {
        const bool last = (it + 1 == port._subscribers.end());
        (*it)->bufferLabelPush(last, port._postedLabels, port._postedBuffers);
    }
}

void Pothos::WorkerActor::postWorkTasks(void)
'''), ('lib/Framework/WorkerActor.hpp', '    void postWorkTasks(void);', '    void postWorkTasks(void);\n    void deliver(OutputPort &port);')], Q))
