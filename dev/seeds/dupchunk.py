ID='C07-same-chunk'
PROPERTY='C07'
NEEDS='the same buffer posted twice in a row while the first copy is still queued'
BREAKS='a chunk that starts where the previous one starts is taken for a leftover and removed from the accumulator although it holds bytes'
EDITS=[('lib/Framework/BufferAccumulator.cpp','''        if (b.getManagedBuffer() == f.getManagedBuffer() and b.length == 0)
''','''        if (b.getManagedBuffer() == f.getManagedBuffer() and (b.length == 0 or b.address == f.address))
''')]
DEMO=r'''
#include <Pothos/Framework.hpp>
#include <Pothos/Framework/BufferAccumulator.hpp>
#include <algorithm>
#include <cstdio>
using namespace Pothos;
int main(void)
{
    BufferAccumulator acc;
    BufferChunk a(16), b(16);
    for (int i = 0; i < 16; i++) {a.as<unsigned char *>()[i] = i; b.as<unsigned char *>()[i] = 100+i;}
    acc.push(BufferChunk(a)); acc.push(BufferChunk(a)); acc.push(BufferChunk(b));
    if (acc.getTotalBytesAvailable() != 48) return 2;
    for (int i = 0; i < 48; i++)
    {
        const auto &f = acc.front();
        const int e = (i < 32)? i%16 : 100+i-32;
        if (f.length == 0) {printf("nothing at byte %d\n", i); return 1;}
        if (f.as<const unsigned char *>()[0] != e) {printf("byte %d is %d\n", i, f.as<const unsigned char *>()[0]); return 1;}
        acc.pop(1);
    }
    return 0;
}
'''
