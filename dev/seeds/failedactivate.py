ID='C27-failed-activation'
PROPERTY='C27'
NEEDS='a block whose activate() throws, and a topology that lives on after the failed commit'
BREAKS='the block stays marked active, so it works although it was never activated'
EDITS=[('lib/Framework/WorkerActor.cpp','''        this->activeState = false;
        throw ex;''','''        throw ex;''')]
FLAGS=''
DEMO=r'''
#include <Pothos/Framework.hpp>
#include <Pothos/Init.hpp>
#include <atomic>
#include <chrono>
#include <memory>
#include <thread>
#include <cstdio>
struct Src : Pothos::Block
{
    Src(void) {this->setupOutput(0, typeid(int));}
    void work(void) {if (this->output(0)->elements() != 0) this->output(0)->produce(1);}
};
struct Dst : Pothos::Block
{
    Dst(void): works(0), offs(0) {this->setupInput(0, typeid(int));}
    void activate(void) {throw Pothos::Exception("no device");}
    void deactivate(void) {offs++;}
    void work(void) {works++; this->input(0)->consume(this->input(0)->elements());}
    std::atomic<int> works, offs;
};
int main(void)
{
    Pothos::ScopedInit init;
    int bad = 0;
    std::shared_ptr<Src> src(new Src());
    std::shared_ptr<Dst> dst(new Dst());
    {
        auto t = Pothos::Topology::make();
        t->connect(src, 0, dst, 0);
        bool threw = false;
        try {t->commit();} catch (const Pothos::Exception &) {threw = true;}
        if (not threw) {printf("commit did not report the failure\n"); bad = 1;}
        std::this_thread::sleep_for(std::chrono::milliseconds(500));
        if (dst->isActive()) {printf("the block claims to be active\n"); bad = 1;}
        try {t->disconnectAll(); t->commit();} catch (const Pothos::Exception &) {}
    }
    if (dst->works != 0) {printf("worked %d times without activation\n", int(dst->works)); bad = 1;}
    if (dst->offs != 0) {printf("deactivated without activation\n"); bad = 1;}
    return bad;
}
'''
