ID='C17-reactivated-dst'
PROPERTY='C17'
NEEDS='a second commit that adds another flow between two blocks that are already connected and active'
BREAKS='the destination block is activated again although it has been active all the time'
EDITS=[('lib/Framework/TopologyImpl.hpp','        uniques.erase(flow.src.uid);\n        uniques.erase(flow.dst.uid);','        if (uniques.erase(flow.src.uid) == 0) uniques.erase(flow.dst.uid);')]
DEMO=r'''
#include <Pothos/Framework.hpp>
#include <Pothos/Init.hpp>
#include <atomic>
#include <memory>
#include <cstdio>
struct B : Pothos::Block
{
    B(void): on(0), off(0) {this->setupInput(0); this->setupInput(1); this->setupOutput(0); this->setupOutput(1);}
    void activate(void) {on++;}
    void deactivate(void) {off++;}
    std::atomic<int> on, off;
};
int main(void)
{
    Pothos::ScopedInit init;
    std::shared_ptr<B> a(new B()), b(new B());
    int bad = 0;
    {
        auto t = Pothos::Topology::make();
        t->connect(a, 0, b, 0);
        t->commit();
        t->connect(a, 1, b, 1);
        t->commit();
        if (a->on != 1 or b->on != 1) {printf("activated %d and %d times\n", int(a->on), int(b->on)); bad = 1;}
        t->disconnect(a, 0, b, 0);
        t->commit();
        if (a->off != 0 or b->off != 0) {printf("deactivated too early\n"); bad = 1;}
        t->disconnect(a, 1, b, 1);
        t->commit();
        if (a->off != 1 or b->off != 1) {printf("deactivated %d and %d times\n", int(a->off), int(b->off)); bad = 1;}
    }
    return bad;
}
'''
