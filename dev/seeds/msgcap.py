ID='C03-grow-unlocked'
PROPERTY='C03'
NEEDS='two producers pushing to one input port while its message queue is full'
BREAKS='the decision to grow the queue and the insertion are two critical sections, so a second producer inserts into a full ring and messages are lost or overwritten'
EDITS=[('lib/Framework/InputPort.cpp','''    {
        std::lock_guard<Util::SpinLock> lock(_asyncMessagesLock);
        if (_asyncMessages.full())
''','''    {
        std::unique_lock<Util::SpinLock> lock(_asyncMessagesLock);
        if (_asyncMessages.full())
'''),('lib/Framework/InputPort.cpp','''            else _asyncMessages.set_capacity(_asyncMessages.capacity()*2);
        }
        _asyncMessages.emplace_back(message, token);
''','''            else _asyncMessages.set_capacity(_asyncMessages.capacity()*2);
        }

        //let the consumer in before the insertion
        lock.unlock();
        lock.lock();
        _asyncMessages.emplace_back(message, token);
''')]
DEMO=r'''
#include <Pothos/Framework.hpp>
#include <Pothos/Init.hpp>
#include <thread>
#include <atomic>
#include <vector>
#include <cstdio>
struct B : Pothos::Block
{
    B(void){this->setupInput(0);}
};
int main(void)
{
    Pothos::init();
    for (int round = 0; round < 3000; round++)
    {
        B b;
        auto port = b.input(0);
        const int N = 100, T = 6;
        std::vector<std::thread> t;
        std::atomic<int> go(0);
        for (int i = 0; i < T; i++) t.emplace_back([&go, i, port]{go++; while (go != T); for (int k = 0; k < N; k++) port->pushMessage(Pothos::Object(i*N + k));});
        for (auto &x : t) x.join();
        std::vector<int> seen(N*T, 0);
        for (int n = 0; n < N*T; n++)
        {
            if (not port->hasMessage()) {printf("round %d: messages lost\n", round); _Exit(1);}
            const auto m = port->popMessage();
            if (not m or seen.at(m.extract<int>())++) {printf("round %d: messages lost or repeated\n", round); fflush(stdout); _Exit(1);}
        }
    }
    Pothos::deinit();
    return 0;
}
'''
