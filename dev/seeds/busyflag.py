ID='C10-flag-of-busy-task-cleared'
PROPERTY='C10'
NEEDS='a pool with two threads in wait mode: one finishes a task successfully while the other is still in its task'
BREAKS='waking the busy tasks also clears their flags, so a second thread enters a task that is being run'
EDITS=[('lib/Framework/ThreadEnvironment.cpp','''            task.second->wake();
        }
        //got the lock, so there is nothing to wake -> unlock
        else
        {
            task.second->flag.clear(std::memory_order_release);
        }
''','''            task.second->wake();
        }
        task.second->flag.clear(std::memory_order_release);
''')]
FLAGS='-I/repo/lib -pthread /repo/lib/Framework/ThreadEnvironment.cpp /repo/lib/Framework/ThreadConfigUnix.cpp'
DEMO=r'''
#include "Framework/ThreadEnvironment.hpp"
#include <atomic>
#include <chrono>
#include <thread>
#include <cstdio>
int main(void)
{
    ThreadEnvironment env(Pothos::ThreadPoolArgs(2));
    int a, b;
    std::atomic<int> inside(0);
    std::atomic<bool> twice(false);
    env.registerTask(&a, [&](bool)
    {
        if (++inside > 1) twice = true;
        std::this_thread::sleep_for(std::chrono::milliseconds(20));
        inside--;
        return true;
    }, [](void){});
    env.registerTask(&b, [&](bool){std::this_thread::sleep_for(std::chrono::milliseconds(1)); return true;}, [](void){});
    std::this_thread::sleep_for(std::chrono::milliseconds(1500));
    env.unregisterTask(&a);
    env.unregisterTask(&b);
    if (twice) printf("two threads in one task\n");
    return twice ? 1 : 0;
}
'''
