ID='C09-label-second-subscriber'
PROPERTY='C09'
NEEDS='an output with two subscribers, where the first one still has unread bytes when labels are posted'
BREAKS='labels are moved by the bytes queued at the first subscriber also for the subscribers after it'
EDITS=[('lib/Framework/InputPort.cpp','''            for (auto label : postedLabels)
            {
                label.index += currentBytes; //increment by enqueued bytes
                _inputInlineMessages.push_back(std::move(label));
            }
''','''            for (auto &label : postedLabels)
            {
                label.index += currentBytes; //increment by enqueued bytes
                _inputInlineMessages.push_back(label);
            }
''')]
DEMO=r'''
#include <Pothos/Framework.hpp>
#include <Pothos/Init.hpp>
#include <thread>
#include <atomic>
#include <chrono>
#include <cstdio>
struct Src : Pothos::Block
{
    int n;
    Src(void):n(0){this->setupOutput(0, typeid(int));}
    void work(void)
    {
        if (n == 20) return;
        auto p = this->output(0);
        if (p->elements() < 10) return;
        p->postLabel(Pothos::Label("L", n, 3));
        p->produce(10);
        n++;
    }
};
struct Sink : Pothos::Block
{
    size_t reserve; std::atomic<int> bad, got; 
    Sink(size_t r):reserve(r),bad(0),got(0){this->setupInput(0, typeid(int));}
    void work(void)
    {
        auto p = this->input(0);
        p->setReserve(reserve);
        if (p->elements() < reserve) return;
        for (const auto &l : p->labels())
        {
            if (l.index >= p->elements()) continue;
            const long at = p->totalElements() + l.index;
            const int k = l.data.extract<int>();
            if (at != k*10+3) {bad++; printf("label %d at element %ld\n", k, at);}
            got++;
        }
        p->consume(p->elements());
    }
};
int main(void)
{
    Pothos::init();
    auto src = std::shared_ptr<Src>(new Src());
    auto a = std::shared_ptr<Sink>(new Sink(40)), b = std::shared_ptr<Sink>(new Sink(1));
    {
        Pothos::Topology t;
        t.connect(src, 0, a, 0);
        t.connect(src, 0, b, 0);
        t.commit();
        for (int i = 0; i < 300 and (b->got < 20); i++) std::this_thread::sleep_for(std::chrono::milliseconds(10));
    }
    printf("labels a %d b %d\n", int(a->got), int(b->got));
    if (a->bad or b->bad or b->got < 20) {fflush(stdout); _Exit(1);}
    fflush(stdout);
    _Exit(0);
}
'''
