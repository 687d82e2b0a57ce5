ID='C05-overflow-reacquire'
PROPERTY='C05'
NEEDS='an input port that is not read until its message queue holds the maximum number of messages'
BREAKS='the overflow branch clears the queue through the public helper, which takes the lock the caller already holds: the posting thread spins for ever'
EDITS=[('lib/Framework/InputPort.cpp','''                _asyncMessages.clear();
                poco_error''','''                this->asyncMessagesClear();
                poco_error''')]
DEMO=r'''
#include <Pothos/Framework.hpp>
#include <Pothos/Init.hpp>
#include <unistd.h>
#include <cstdio>
struct B : Pothos::Block
{
    B(void){this->setupInput(0);}
};
int main(void)
{
    Pothos::init();
    alarm(60); //ends the process when it hangs
    {
        B b;
        auto port = b.input(0);
        for (int i = 0; i < 3000; i++) port->pushMessage(Pothos::Object(i));
    }
    alarm(0);
    Pothos::deinit();
    return 0;
}
'''
