// makes the compiler emit the inline members of the handle classes, so that they are analysed even where the library does not use them
#include <Pothos/Framework/ManagedBuffer.hpp>
#include <Pothos/Framework/BufferChunk.hpp>
#include <Pothos/Framework/BufferAccumulator.hpp>
#include <Pothos/Object.hpp>

void useHandles(Pothos::ManagedBuffer &a, const Pothos::ManagedBuffer &b, Pothos::BufferChunk &c, const Pothos::BufferChunk &d, Pothos::Object &o, const Pothos::Object &p)
{
    Pothos::ManagedBuffer x, y(b), z(std::move(a));
    x = b;
    y = std::move(z);
    y.setNextBuffer(b);
    z = y.getNextBuffer();
    z.reset();
    if (x == y and x != z and x.unique() and x.useCount() and x < y and x) x.getBuffer();
    x.getSlabIndex();
    x.getBufferManager();
    Pothos::BufferChunk u, v(d), w(std::move(c)), s(b), e(Pothos::DType("int"), 4);
    u = d;
    v = std::move(w);
    u.clear();
    u.unique();
    u.useCount();
    u.getAlias();
    Pothos::Object q, r(p), t(std::move(o)), h("x"), i(1);
    q = p;
    r = std::move(t);
    q.unique();
}
