NU='include/Pothos/Archive/Numbers.hpp'
AR='include/Pothos/Archive/'
m=lambda *a,**k: _m(*a,p='C14',**k)
m('c14-payload', NU, 't |= T(byte & 0x7f) << shift;\n        shift += 7;\n    } while ((byte & 0x80) != 0);\n\n    //sign', 't |= T(byte & 0x3f) << shift;\n        shift += 7;\n    } while ((byte & 0x80) != 0);\n\n    //sign')
m('c14-group', NU, 'value >>= 7; //must be', 'value >>= 8; //must be')
m('c14-signpos', NU, '(value != -1 or signbit == 0)) byte |= 0x80;', '(value != -1)) byte |= 0x80;')
m('c14-signbit', NU, 'if ((value != 0 or signbit != 0) and', 'if ((value != 0) and')
m('c14-signext', NU, 'static_cast<T>(~0ull << shift)', 'static_cast<T>(~0u << shift)')
m('c14-signpol', NU, 'if (signbit != 0 and shift <', 'if (signbit == 0 and shift <')
m('c14-width', NU, 'T(byte & 0x7f) << shift;\n        shift += 7;\n    } while ((byte & 0x80) != 0);\n\n    //sign', '(byte & 0x7f) << shift;\n        shift += 7;\n    } while ((byte & 0x80) != 0);\n\n    //sign')
m('c14-endian', NU, 'static_cast<unsigned short>(buff[1]) << 8', 'static_cast<unsigned short>(buff[1]) << 7')
m('c14-8bit', NU, '    BinaryObject bo(&t, 1);\n    ar >> bo;', '    BinaryObject bo(&t, sizeof(t)-1);\n    ar >> bo;')
m('c14-boolpol', NU, 't = (value == 0)?false:true;', 't = (value != 0)?false:true;')
m('c14-float', NU, 'ar << *static_cast<const unsigned int *>(bin);', 'ar << *static_cast<const int *>(bin);')
m('c14-strlen', AR+'String.hpp', 'BinaryObject bo(t.data(), t.size()*sizeof(T));\n    ar >> bo;', 'BinaryObject bo(t.data(), t.size());\n    ar >> bo;')
m('c14-strsize', AR+'String.hpp', '    t.resize(size);\n', '    if (size > t.size()) t.resize(size);\n')
m('c14-vec1', AR+'Vector.hpp', 'ar >> elem;\n        t.emplace_back', 'ar >> elem;\n        if (i) t.emplace_back')
m('c14-vecclear', AR+'Vector.hpp', '    t.clear();\n', '')
m('c14-mapclear', AR+'Map.hpp', '    t.clear();\n', '')
m('c14-setcount', AR+'Set.hpp', 'i < size_t(size)', 'i+1 < size_t(size)')
m('c14-setclear', AR+'Set.hpp', '    t.clear();\n', '')
m('c14-complex', AR+'Complex.hpp', '    ar >> real;\n    ar >> imag;', '    ar >> imag;\n    ar >> real;')
m('c14-vecskip', AR+'Vector.hpp', '    for (const auto &elem : t)\n    {\n        ar << elem;', '    for (const auto &elem : t)\n    {\n        if (&elem != &t[0]) ar << elem;')
m('c14-null', 'include/Pothos/Object/Serialize.hpp', 'if (not is_null) ar >> t._impl;', 'if (is_null) ar >> t._impl;')
m('c14-bc-dtype', 'lib/Framework/BufferChunk.cpp', '    ar >> bo;\n    ar >> t.dtype;', '    ar >> t.dtype;\n    ar >> bo;')
m('c14-bc-len', 'lib/Framework/BufferChunk.cpp', 'bo(t.as<void *>(), t.length);\n    ar >> bo', 'bo(t.as<void *>(), t.getBuffer().getLength());\n    ar >> bo')
m('c14-bc-slen', 'lib/Framework/BufferChunk.cpp', 'bo(t.as<void *>(), t.length);\n    ar << bo', 'bo(t.as<void *>(), t.elements()*t.dtype.size());\n    ar << bo')
m('c14-proxy-len', 'lib/Proxy/Proxy.cpp', 'std::vector<char>(size_t(length));', 'std::vector<char>(size_t(length)+1);')
m('c14-label', 'lib/Framework/Label.cpp', '    ar & this->width;\n', '')
m('c14-label-cond', 'lib/Framework/Label.cpp', '    ar & this->index;\n    ar & this->width;\n', '    if (this->width != 1) ar & this->index;\n    ar & this->width;\n')
m('c14-hostinfo', 'lib/System/HostInfo.cpp', '    ar & t.osVersion;\n', '')
m('c14-portinfo', 'lib/Framework/Connectable.cpp', '    ar & t.alias;\n', '    ar & t.name;\n')
m('c14-tpa', 'lib/Framework/ThreadPool.cpp', '    ar & t.affinity;\n', '    if (not t.affinityMode.empty()) ar & t.yieldMode;\n')
m('c14-pair', AR+'Pair.hpp', '    ar & t.first;\n    ar & t.second;', '    ar & t.second;\n    ar & t.second;')
_m('c14-q-packet', 'lib/Framework/Packet.cpp', '    ar & t.labels;\n', '    if (t.payload) ar & t.metadata;\n    ar & t.labels;\n', e=Q, p='C14')
m('c14-dump', 'lib/Plugin/Registry.cpp', '    ar & t.objectType;\n    ar & t.modulePath;', '    ar & t.objectType;\n    ar & t.objectType;')
m('c14-poly', AR+'Polymorphic.hpp', '    ar << entry.getHash();\n', '    ar << static_cast<unsigned int>(entry.getHash());\n')
# behaviour kept
q=lambda *a,**k: _m(*a,e=Q,p='C14',**k)
q('c14-q-vecidx', AR+'Vector.hpp', '    for (const auto &elem : t)\n    {\n        ar << elem;', '    for (size_t i = 0; i < t.size(); i++)\n    {\n        ar << t[i];')
q('c14-q-vecload', AR+'Vector.hpp', '''    t.clear();
    t.reserve(size);
    for (size_t i = 0; i < size_t(size); i++)
    {
        T elem;
        ar >> elem;
        t.emplace_back(std::move(elem));
    }''', '''    t.clear();
    unsigned left = size;
    while (left != 0)
    {
        T elem;
        ar >> elem;
        t.push_back(elem);
        left--;
    }''')
q('c14-q-vecit', AR+'Vector.hpp', '    for (const auto &elem : t)\n    {\n        ar << elem;\n    }', '    for (auto it = t.begin(); it != t.end(); ++it) ar << *it;')
q('c14-q-map', AR+'Map.hpp', 't.emplace_hint(t.end(), std::move(pair));', 't.insert(pair);')
q('c14-q-mapkv', AR+'Map.hpp', 't.emplace_hint(t.end(), std::move(pair));', 't[pair.first] = pair.second;')
q('c14-q-bc', 'lib/Framework/BufferChunk.cpp', '    if (is_null) return;\n    Poco::UInt32 length = 0;\n    ar >> length;\n    t = Pothos::BufferChunk(size_t(length));\n    Pothos::serialization::BinaryObject bo(t.as<void *>(), t.length);\n    ar >> bo;\n    ar >> t.dtype;',
 '    if (not is_null)\n    {\n        Poco::UInt32 length = 0;\n        ar >> length;\n        const size_t numBytes(length);\n        Pothos::BufferChunk chunk(numBytes);\n        Pothos::serialization::BinaryObject bo(chunk.as<void *>(), numBytes);\n        ar >> bo;\n        ar >> chunk.dtype;\n        t = std::move(chunk);\n    }')
q('c14-q-bcs', 'lib/Framework/BufferChunk.cpp', 'bo(t.as<void *>(), t.length);\n    ar << bo', 'bo(t.as<void *>(), length);\n    ar << bo')
q('c14-q-str', AR+'String.hpp', '    t.resize(size);\n    BinaryObject bo(t.data(), t.size()*sizeof(T));\n    ar >> bo;', '    t = std::basic_string<T, Traits, Allocator>(size_t(size), T());\n    BinaryObject bo(t.data(), size*sizeof(T));\n    ar >> bo;')
q('c14-q-leb', NU, '''        if ((value != 0 or signbit != 0) and
            (value != -1 or signbit == 0)) byte |= 0x80;
        ar << byte;
    } while''', '''        const bool done = (value == 0 and signbit == 0) or (value == -1 and signbit != 0);
        if (not done) byte |= 0x80;
        ar << byte;
    } while''')
q('c14-q-lebfor', NU, '''    T value(t);
    unsigned char byte;
    do
    {
        byte = static_cast<unsigned char>(value) & 0x7f;
        value >>= 7;
        if (value != 0) byte |= 0x80;
        ar << byte;
    } while ((byte & 0x80) != 0);''', '''    T value(t);
    while (value >= 0x80)
    {
        const auto byte = static_cast<unsigned char>((value & 0x7f) | 0x80);
        ar << byte;
        value >>= 7;
    }
    const auto byte = static_cast<unsigned char>(value);
    ar << byte;''')
q('c14-q-short', NU, '''    t = static_cast<T>(
        (static_cast<unsigned short>(buff[0]) << 0) |
        (static_cast<unsigned short>(buff[1]) << 8));''', '''    unsigned short v = buff[1];
    v = static_cast<unsigned short>((v << 8) | buff[0]);
    t = static_cast<T>(v);''')
q('c14-q-complex', AR+'Complex.hpp', '    t.real(real);\n    t.imag(imag);', '    t = std::complex<T>(real, imag);')
q('c14-q-order', 'lib/Framework/Label.cpp', '    ar & this->index;\n    ar & this->width;\n', '    ar & this->width;\n    ar & this->index;\n')
q('c14-q-helper', 'lib/Framework/Label.cpp', '    ar & this->id;\n    ar & this->data;\n', '    auto &self = *this;\n    ar & self.id;\n    ar & self.data;\n')
q('c14-q-obj', 'include/Pothos/Object/Serialize.hpp', '    bool is_null = false;\n    ar >> is_null;\n    if (not is_null) ar >> t._impl;', '    bool is_null = true;\n    ar >> is_null;\n    if (is_null) return;\n    ar >> t._impl;')
