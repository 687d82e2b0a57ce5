ID='C10-unregister-returns-early'
PROPERTY='C10'
NEEDS='a pool with two threads and two tasks; a task is unregistered while it is run by the thread that stays in the pool'
BREAKS='unregisterTask waits for the superfluous thread only, so it returns while the other thread still runs the task (of a block that is destroyed next)'
EDITS=[('lib/Framework/ThreadEnvironment.cpp','''            _threadPool.resize(_handleToTask.size());
        }
''','''            _threadPool.resize(_handleToTask.size());
            data.reset(); //its thread has ended
        }
'''),('lib/Framework/ThreadEnvironment.cpp','''    while (not data.unique()) std''','''    while (data and not data.unique()) std''')]
FLAGS='-I/repo/lib -pthread /repo/lib/Framework/ThreadEnvironment.cpp /repo/lib/Framework/ThreadConfigUnix.cpp'
DEMO=r'''
#include "Framework/ThreadEnvironment.hpp"
#include <atomic>
#include <chrono>
#include <thread>
#include <cstdio>
int main(void)
{
    for (int round = 0; round < 30; round++)
    {
        ThreadEnvironment env(Pothos::ThreadPoolArgs(2));
        int a, b;
        std::atomic<int> inside(0);
        env.registerTask(&a, [&](bool)
        {
            inside++;
            std::this_thread::sleep_for(std::chrono::milliseconds(20));
            inside--;
            return true;
        }, [](void){});
        env.registerTask(&b, [&](bool){std::this_thread::sleep_for(std::chrono::milliseconds(1)); return true;}, [](void){});
        while (inside == 0) std::this_thread::yield();
        env.unregisterTask(&a);
        if (inside != 0) {printf("round %d: the task still runs\n", round); fflush(stdout); _Exit(1);}
        env.unregisterTask(&b);
    }
    return 0;
}
'''
