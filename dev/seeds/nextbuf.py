ID='C06-next-refs'
PROPERTY='C06'
NEEDS='a chunk that starts inside a buffer, reaches into the next chained buffer and is copied'
BREAKS='the copy does not hold a reference to the chained buffer its bytes are in, so that buffer goes back to its manager and is reused while it is still read'
EDITS=[('lib/Framework/BufferChunk.cpp','''    int lengthRemain = this->getEnd() - getBuffer().getEnd();
''','''    int lengthRemain = int(this->length) - int(getBuffer().getLength());
''')]
DEMO=r'''
#include <Pothos/Framework.hpp>
#include <Pothos/Init.hpp>
#include <cstdio>
int main(void)
{
    Pothos::init();
    auto slab = Pothos::SharedBuffer::make(256);
    Pothos::ManagedBuffer m0, m1;
    m0.reset(Pothos::BufferManager::Sptr(), Pothos::SharedBuffer(slab.getAddress(), 128, slab), 0);
    m1.reset(Pothos::BufferManager::Sptr(), Pothos::SharedBuffer(slab.getAddress()+128, 128, slab), 1);
    m0.setNextBuffer(m1);
    for (size_t off = 0; off < 128; off += 16) for (size_t len = 16; off+len <= 256; len += 16)
    {
        const auto before = m1.useCount();
        Pothos::BufferChunk c(m0);
        c.address += off;
        c.length = len;
        Pothos::BufferChunk d(c);
        const bool spans = off+len > 128;
        if (m1.useCount() != before + (spans?1:0))
        {
            printf("offset %d length %d: the copy holds %d references of the next buffer\n", int(off), int(len), int(m1.useCount()-before));
            return 1;
        }
        d.clear();
        if (m1.useCount() != before) return 1;
    }
    return 0;
}
'''
