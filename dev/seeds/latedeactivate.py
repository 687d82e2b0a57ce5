ID='C27-throwing-deactivation'
PROPERTY='C27'
NEEDS='a block whose deactivate() throws while data is still queued at its input'
BREAKS='the block stays active after the failed deactivation and keeps working although it was stopped'
EDITS=[('lib/Framework/WorkerActor.cpp','''    this->activeState = false;
    this->block->deactivate();
''','''    this->block->deactivate();
    this->activeState = false;
''')]
FLAGS=''
DEMO=r'''
#include <Pothos/Framework.hpp>
#include <Pothos/Init.hpp>
#include <atomic>
#include <chrono>
#include <memory>
#include <thread>
#include <cstdio>
struct Src : Pothos::Block
{
    Src(void) {this->setupOutput(0, typeid(int));}
};
struct Dst : Pothos::Block
{
    Dst(void): works(0), offs(0) {this->setupInput(0, typeid(int));}
    void deactivate(void) {offs++; throw Pothos::Exception("device lost");}
    void work(void) {works++;}
    std::atomic<int> works, offs;
};
int main(void)
{
    Pothos::ScopedInit init;
    int bad = 0;
    std::shared_ptr<Src> src(new Src());
    std::shared_ptr<Dst> dst(new Dst());
    {
        auto t = Pothos::Topology::make();
        t->connect(src, 0, dst, 0);
        t->commit();
        if (not dst->isActive()) {printf("not active after commit\n"); bad = 1;}
        t->disconnectAll();
        try {t->commit();} catch (const Pothos::Exception &) {}
        if (dst->offs == 0) {printf("not deactivated\n"); bad = 1;}
        if (dst->isActive()) {printf("still active after deactivation\n"); bad = 1;}
    }
    return bad;
}
'''
