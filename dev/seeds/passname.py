ID='C17-crossed-pass-through'
PROPERTY='C17'
NEEDS='two nested topologies that pass through ports of the same name to the same outer block'
BREAKS='a pass-through flow is joined by the name of its port alone, so blocks behind another topology with the same port name are connected too'
EDITS=[('lib/Framework/TopologyCommit.cpp','if (flow.src == flowTail.src and flow.dst == flowHead.dst)','if (flow.src.name == flowTail.src.name and flow.dst == flowHead.dst)')]
DEMO=r'''
#include <Pothos/Framework.hpp>
#include <Pothos/Init.hpp>
#include <cstdio>
#include <memory>
#include <string>
struct Src : Pothos::Block
{
    Src(const std::string &v): v(v) {this->setupOutput(0);}
    void work(void) {if (not done) this->output(0)->postMessage(v); done = true;}
    std::string v; bool done = false;
};
struct Sink : Pothos::Block
{
    Sink(void) {this->setupInput(0);}
    void work(void) {while (this->input(0)->hasMessage()) got += this->input(0)->popMessage().extract<std::string>();}
    std::string got;
};
int main(void)
{
    Pothos::ScopedInit init;
    std::shared_ptr<Src> a(new Src("a")), b(new Src("b"));
    std::shared_ptr<Sink> x(new Sink()), y(new Sink());
    {
        auto t = Pothos::Topology::make();
        auto p = Pothos::Topology::make(), q = Pothos::Topology::make();
        p->connect(p, "in", p, "out");
        q->connect(q, "in", q, "out");
        t->connect(a, 0, p, "in");
        t->connect(p, "out", x, 0);
        t->connect(b, 0, q, "in");
        t->connect(q, "out", y, 0);
        t->commit();
        t->waitInactive(0.1, 5.0);
        t->disconnectAll(true);
        t->commit();
    }
    printf("%s %s\n", x->got.c_str(), y->got.c_str());
    return (x->got == "a" and y->got == "b") ? 0 : 1;
}
'''
