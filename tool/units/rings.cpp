// makes the compiler emit every member of the ring and ordered queue templates, so that they are analysed even where the library does not use them
#include <Pothos/Util/RingDeque.hpp>
#include <Pothos/Util/OrderedQueue.hpp>
#include <Pothos/Framework/ManagedBuffer.hpp>
#include <string>

template class Pothos::Util::RingDeque<std::string>;
template class Pothos::Util::RingDeque<Pothos::ManagedBuffer>;
template class Pothos::Util::OrderedQueue<Pothos::ManagedBuffer>;

void useRings(Pothos::Util::RingDeque<std::string> &a, const std::string &s, Pothos::Util::RingDeque<Pothos::ManagedBuffer> &b, const Pothos::ManagedBuffer &m, Pothos::Util::OrderedQueue<Pothos::ManagedBuffer> &q)
{
    a.push_front(s);
    a.push_back(s);
    a.emplace_front(s);
    a.emplace_back(s);
    a.push_back(std::string(s));
    b.push_front(m);
    b.push_back(m);
    b.emplace_front(m);
    b.emplace_back(m);
    q.push(m, 1);
}
