ID='C26-port-index-end'
PROPERTY='C26'
NEEDS='a block asks for the input port whose index is exactly the number of its input ports'
BREAKS='the element behind the last port is read instead of reporting that there is no such port'
EDITS=[('include/Pothos/Framework/BlockImpl.hpp','if (index >= _indexedInputs.size()) throw','if (index > _indexedInputs.size()) throw')]
DEMO=r'''
#include <Pothos/Framework.hpp>
#include <cstdio>
struct B : Pothos::Block
{
    B(void) {this->setupInput(0); this->setupInput(1);}
    bool ask(size_t i) {try {this->input(i);} catch (const Pothos::PortAccessError &) {return false;} return true;}
};
int main(void)
{
    B b;
    if (not b.ask(0) or not b.ask(1)) {printf("a port is missing\n"); return 1;}
    for (size_t i = 2; i < 5; i++) if (b.ask(i)) {printf("port %d does not exist\n", int(i)); return 1;}
    return 0;
}
'''
