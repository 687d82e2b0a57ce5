ID='C15-narrow-catch'
PROPERTY='C15'
NEEDS='a corrupt archive with a huge element count, for which memory cannot be reserved'
BREAKS='failures that are not runtime errors (no memory, bad lengths) leave deserialize() as they are instead of as ObjectSerializeError'
EDITS=[('lib/Object/Serialize.cpp','catch(const std::exception &ex)','catch(const std::runtime_error &ex)'),('lib/Object/Serialize.cpp','#include <cassert>','#include <stdexcept>\n#include <cassert>')]
DEMO=r'''
#include <Pothos/Object.hpp>
#include <Pothos/Object/Serialize.hpp>
#include <Pothos/Object/Exception.hpp>
#include <Pothos/Init.hpp>
#include <sstream>
#include <sys/resource.h>
int main(void)
{
    struct rlimit r; r.rlim_cur = r.rlim_max = 3ul << 30; setrlimit(RLIMIT_AS, &r);
    const Pothos::Object o(std::vector<std::string>(1, "x"));
    std::stringstream ss; o.serialize(ss);
    std::string s = ss.str();
    //version, null flag, type hash, count, string: the count is the byte before the string (length, character)
    if (s.size() < 4 or s[s.size()-3] != 1) return 2;
    s = s.substr(0, s.size()-3) + std::string("\xff\xff\xff\xff\x0f") + s.substr(s.size()-2);
    std::stringstream in(s);
    try {Pothos::Object x; x.deserialize(in); return 3;}
    catch (const Pothos::ObjectSerializeError &) {return 0;}
    catch (...) {return 1;}
}
'''
