ID='C01-call-gives-up'
PROPERTY='C01'
NEEDS='an external call while a work pass takes longer than the grace period'
BREAKS='a caller that waited long enough enters the block although the worker is still inside'
EDITS=[('lib/Framework/ActorInterface.hpp','''    while (not _extCallLock.try_lock())
    {
        _acquireCond.wait_for(lock, std::chrono::milliseconds(1));
    }
''','''    for (size_t i = 0; not _extCallLock.try_lock(); i++)
    {
        if (i > 1000) break; //never block the caller for ever
        _acquireCond.wait_for(lock, std::chrono::milliseconds(1));
    }
''')]
DEMO=r'''
#include <Pothos/Framework.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Init.hpp>
#include <atomic>
#include <thread>
#include <chrono>
#include <cstdio>
struct Slow : Pothos::Block
{
    Slow(void):inside(false),started(false)
    {
        this->setupInput(0);this->setupOutput(0);
        this->registerCall(this, POTHOS_FCN_TUPLE(Slow, poke));
    }
    void work(void)
    {
        if (not this->input(0)->hasMessage()) return;
        this->input(0)->popMessage();
        inside = true; started = true;
        std::this_thread::sleep_for(std::chrono::seconds(6));
        inside = false;
    }
    int poke(void){return inside?1:0;}
    std::atomic<bool> inside, started;
};
int main(void)
{
    Pothos::init();
    int rc = 0;
    {
        auto a = std::make_shared<Slow>();
        auto b = std::make_shared<Slow>();
        Pothos::Topology t;
        t.connect(a, 0, b, 0);
        t.commit();
        a->input(0)->pushMessage(Pothos::Object(1));
        while (not a->started) std::this_thread::sleep_for(std::chrono::milliseconds(10));
        if (a->call<int>("poke") != 0) {printf("entered a running block\n"); fflush(stdout); _Exit(1);}
    }
    Pothos::deinit();
    return rc;
}
'''
