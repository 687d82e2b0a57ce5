ID='C02-flag-on-empty-only'
PROPERTY='C02'
NEEDS='a message that arrives while an older one still waits in the queue of an idle block'
BREAKS='only the first message of a queue marks the block for work; later ones do not wake it'
EDITS=[('lib/Framework/InputPort.cpp','''    {
        std::lock_guard<Util::SpinLock> lock(_asyncMessagesLock);
        if (_asyncMessages.full())
''','''    bool wasEmpty(false);
    {
        std::lock_guard<Util::SpinLock> lock(_asyncMessagesLock);
        wasEmpty = _asyncMessages.empty();
        if (_asyncMessages.full())
'''),('lib/Framework/InputPort.cpp','''        _asyncMessages.emplace_back(message, token);
    }

    assert(_actor != nullptr);
    _actor->flagExternalChange();
''','''        _asyncMessages.emplace_back(message, token);
    }

    //the queue being non-empty means that the change was already flagged
    assert(_actor != nullptr);
    if (wasEmpty) _actor->flagExternalChange();
''')]
DEMO=r'''
#include <Pothos/Framework.hpp>
#include <Pothos/Init.hpp>
#include <Pothos/Exception.hpp>
#include <atomic>
#include <thread>
#include <chrono>
#include <cstdio>
// collects until a second message has arrived, without popping the first
struct Collector : Pothos::Block
{
    Collector(void):passes(0){this->setupInput(0);this->setupOutput(0);}
    void work(void){passes++;}
    std::atomic<int> passes;
};
static bool settles(std::atomic<int> &v)
{
    for (int i = 0; i < 100; i++)
    {
        const int x = v;
        std::this_thread::sleep_for(std::chrono::milliseconds(100));
        if (v == x) return true;
    }
    return false;
}
int main(void)
{
    Pothos::init();
    int rc = 0;
    {
        auto c = std::make_shared<Collector>();
        auto d = std::make_shared<Collector>();
        Pothos::Topology t;
        t.connect(c, 0, d, 0);
        t.commit();
        c->input(0)->pushMessage(Pothos::Object(1));
        std::this_thread::sleep_for(std::chrono::milliseconds(200));
        settles(c->passes);
        for (int round = 0; round < 3 and rc == 0; round++)
        {
            const int before = c->passes;
            c->input(0)->pushMessage(Pothos::Object(2));
            for (int i = 0; i < 300 and c->passes == before; i++) std::this_thread::sleep_for(std::chrono::milliseconds(10));
            if (c->passes == before) {printf("message %d never processed\n", round+2); rc = 1;}
        }
    }
    Pothos::deinit();
    return rc;
}
'''
