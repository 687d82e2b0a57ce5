ID='C11-hash-unlocked'
PROPERTY='C11'
NEEDS='a hash function being unregistered while another thread hashes an object of its type'
BREAKS='the entry found in the hash table is used after the shared lock was released, so it can be destroyed meanwhile'
EDITS=[('lib/Object/Hash.cpp','''    Pothos::Util::SpinLockRW::SharedLock lock(getMapMutex());
    auto it = getHashFcnMap().find(this->type().hash_code());

    //return the address when no hash function found
    if (it == getHashFcnMap().end()) return size_t(_impl);

    const auto &call = it->second.getObject().extract<Pothos::Callable>();
    return call.opaqueCall(this, 1).extract<size_t>();
''','''    const Pothos::Plugin *plugin = nullptr;
    {
        Pothos::Util::SpinLockRW::SharedLock lock(getMapMutex());
        auto it = getHashFcnMap().find(this->type().hash_code());

        //return the address when no hash function found
        if (it == getHashFcnMap().end()) return size_t(_impl);
        plugin = &it->second;
    }

    //the function may take long, call it without the lock
    const auto &call = plugin->getObject().extract<Pothos::Callable>();
    return call.opaqueCall(this, 1).extract<size_t>();
''')]
DEMO=r'''
#include <Pothos/Object.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Callable.hpp>
#include <Pothos/Init.hpp>
#include <thread>
#include <atomic>
#include <chrono>
#include <vector>
#include <cstdio>
struct A{int v;};
static size_t hashA(const A &a){return size_t(a.v);}
int main(void)
{
    Pothos::init();
    std::atomic<bool> stop(false);
    std::atomic<long> bad(0);
    A a; a.v = 42;
    const Pothos::Object o(a);
    const size_t plain = o.hashCode();
    std::vector<std::thread> t;
    for (int i = 0; i < 6; i++) t.emplace_back([&]{while (not stop)
    {
        try {const auto h = o.hashCode(); if (h != 42 and h != plain) bad++;}
        catch (...) {bad++;}
    }});
    const auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
    while (std::chrono::steady_clock::now() < end and not bad)
    {
        Pothos::PluginRegistry::addCall("/object/hash/demo", &hashA);
        Pothos::PluginRegistry::remove("/object/hash/demo");
    }
    stop = true;
    for (auto &x : t) x.join();
    printf("bad %ld\n", long(bad));
    return bad? 1 : 0;
}
'''
