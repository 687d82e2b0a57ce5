_m('c07-startmove', BA, 'if (fOverBounds and f.getEnd() == b.address)', 'if (fOverBounds)', C, 'C07')
_m('c07-poolflag', BA, '        _inPoolBuffer and queue.size() > 1 and //pool in front\n', '        queue.size() > 1 and //pool in front\n', C, 'C07')
_m('c07-poolclear', BA, '    if (_inPoolBuffer and queueSize != queue.size()) _inPoolBuffer = false;\n', '', C, 'C07')
_m('c07-back', BA, 'if (b.getManagedBuffer() == f.getManagedBuffer() and b.length == 0)', 'if (b.getManagedBuffer() == f.getManagedBuffer())', C, 'C07')
