ID='C25-unknown-ref'
PROPERTY='C25'
NEEDS='releasing a reference that the holder does not hold, while it holds others'
BREAKS='the result of a search is erased without checking that it was found, so releasing an unknown reference drops the last one held'
EDITS=[('lib/Util/RefHolder.cpp','    if (it != _refs.end()) _refs.erase(it);','    if (not _refs.empty()) _refs.erase(it);')]
DEMO=r'''
#include <Pothos/Util/RefHolder.hpp>
#include <Pothos/Object.hpp>
#include <memory>
int main(void)
{
    auto p = std::make_shared<int>(1);
    Pothos::Util::RefHolder h;
    h.holdRef(Pothos::Object(p));
    if (p.use_count() != 2) return 2;
    h.dropRef(Pothos::Object(7));
    return (p.use_count() == 2) ? 0 : 1;
}
'''
