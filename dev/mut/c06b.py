_BC='lib/Framework/BufferChunk.cpp'
_m('c06-reach1', _BC, 'this->getEnd() - getBuffer().getEnd();', 'this->length - getBuffer().getLength();', C, 'C06')
_m('c06-reach2', _BC, 'lengthRemain -= mb->buffer.getLength();', 'lengthRemain -= _managedBuffer._impl->buffer.getLength();', C, 'C06')
_m('c06-reach3', _BC, 'while (lengthRemain > 0)', 'while (lengthRemain >= 0)', C, 'C06')
_old = '''    int lengthRemain = this->getEnd() - getBuffer().getEnd();
    while (lengthRemain > 0)
    {
        mb = mb->nextBuffer;
        if (mb == nullptr) return;
        _nextBuffers++;
        mb->incr();
        lengthRemain -= mb->buffer.getLength();
    }
'''
_m('c06-r-reach1', _BC, _old, '''    size_t held = getBuffer().getEnd();
    const size_t end = this->getEnd();
    for (mb = mb->nextBuffer; mb != nullptr and held < end; mb = mb->nextBuffer)
    {
        mb->incr();
        _nextBuffers++;
        held += mb->buffer.getLength();
    }
''', Q, 'C06')
_m('c06-r-reach2', _BC, _old, '''    for (int lengthRemain = this->getEnd() - getBuffer().getEnd(); lengthRemain > 0; lengthRemain -= mb->buffer.getLength())
    {
        mb = mb->nextBuffer;
        if (mb == nullptr) break;
        mb->incr();
        ++_nextBuffers;
    }
''', Q, 'C06')
