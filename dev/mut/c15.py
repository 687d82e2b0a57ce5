DG='lib/Remote/RemoteProxyDatagram.cpp'
SA='lib/Archive/StreamArchiver.cpp'
OS='lib/Object/Serialize.cpp'
m=lambda *a,**k: _m(*a,p='C15',**k)
q=lambda *a,**k: _m(*a,e=Q,p='C15',**k)
m('c15-nocheck', SA, '    if (size_t(is.gcount()) != len) throw Pothos::ArchiveException(\n        "IStreamArchiver::readBytes()", "unexpected end of stream");\n', '')
m('c15-zero', SA, 'if (size_t(is.gcount()) != len)', 'if (is.gcount() == 0)')
q('c15-q-payload', DG, '''        is.read(_payloadData.data(), _payloadData.size());
        if (is.eof()) throw Pothos::IOException("recvDatagram()", "stream end");
        if (not is) throw Pothos::IOException("recvDatagram()", "stream error");
''', '''        is.read(_payloadData.data(), _payloadData.size());
''')
m('c15-trailer', DG, '''        if (Poco::ByteOrder::fromNetwork(trailer.trailerWord) != PothosRPCTrailerWord)
        {
            throw Pothos::IOException("recvDatagram()", "trailerWord fail");
        }
''', '')
m('c15-header', DG, 'if (Poco::ByteOrder::fromNetwork(header.headerWord) != PothosRPCHeaderWord)', 'if (Poco::ByteOrder::fromNetwork(header.headerWord) != PothosRPCHeaderWord and header.payloadBytes == 0)')
m('c15-swallow', OS, 'catch(const std::exception &ex)\n    {\n        throw ObjectSerializeError("Pothos::Object::deserialize()", ex.what());\n    }', 'catch(const std::exception &)\n    {\n        is.setstate(std::ios::failbit);\n    }')
m('c15-narrow', OS, 'catch(const std::exception &ex)\n', 'catch(const std::runtime_error &ex)\n')
m('c15-leb', 'include/Pothos/Archive/Numbers.hpp', '''        if (shift >= sizeof(T)*8) throw Pothos::ArchiveException(
            "Pothos::serialization::load()", "encoded integer is too long");
        t |= T(byte & 0x7f) << shift;
        shift += 7;
    } while ((byte & 0x80) != 0);

    //sign''', '''        t |= T(byte & 0x7f) << shift;
        shift += 7;
    } while ((byte & 0x80) != 0);

    //sign''')
m('c15-leak', 'include/Pothos/Archive/ArchiveEntry.hpp', 'std::unique_ptr<T> t(new T());', 'T *t(new T());')
MUTANTS[-1] = (MUTANTS[-1][0], 'C15', MUTANTS[-1][2] + [('include/Pothos/Archive/ArchiveEntry.hpp', 'return t.release();', 'return t;')], C)
m('c15-dangling', 'include/Pothos/Archive/Polymorphic.hpp', '    t = nullptr; //in case the load throws\n', '')
q('c15-q-helper', DG, '''        is.read(_payloadData.data(), _payloadData.size());
        if (is.eof()) throw Pothos::IOException("recvDatagram()", "stream end");
        if (not is) throw Pothos::IOException("recvDatagram()", "stream error");
''', '''        readAll(is, _payloadData.data(), _payloadData.size());
''')
MUTANTS[-1] = (MUTANTS[-1][0], 'C15', MUTANTS[-1][2] + [(DG, 'class PRPCDatagramIbuf', '''static void readAll(std::istream &is, char *p, const size_t n)
{
    is.read(p, n);
    if (is.good()) return;
    if (is.eof()) throw Pothos::IOException("recvDatagram()", "stream end");
    throw Pothos::IOException("recvDatagram()", "stream error");
}

class PRPCDatagramIbuf''')], Q)
q('c15-q-checker', DG, '''        is.read(_payloadData.data(), _payloadData.size());
        if (is.eof()) throw Pothos::IOException("recvDatagram()", "stream end");
        if (not is) throw Pothos::IOException("recvDatagram()", "stream error");
''', '''        is.read(_payloadData.data(), _payloadData.size());
        throwOnError(is);
''')
MUTANTS[-1] = (MUTANTS[-1][0], 'C15', MUTANTS[-1][2] + [(DG, 'class PRPCDatagramIbuf', '''static void throwOnError(std::istream &is)
{
    if (is.eof()) throw Pothos::IOException("recvDatagram()", "stream end");
    if (not is) throw Pothos::IOException("recvDatagram()", "stream error");
}

class PRPCDatagramIbuf''')], Q)
q('c15-q-state', SA, 'if (size_t(is.gcount()) != len)', 'if (not is)')
q('c15-q-lt', SA, 'if (size_t(is.gcount()) != len)', 'const auto got = size_t(is.gcount());\n    if (got < len)')
q('c15-q-both', DG, '''if (Poco::ByteOrder::fromNetwork(trailer.trailerWord) != PothosRPCTrailerWord)
        {''', '''const auto word = Poco::ByteOrder::fromNetwork(trailer.trailerWord);
        const bool ok = (word == PothosRPCTrailerWord);
        if (not ok)
        {''')
q('c15-q-poly', 'include/Pothos/Archive/Polymorphic.hpp', '''    delete t; //delete previous pointer or its null
    t = nullptr; //in case the load throws
    t = static_cast<T*>(entry.load(ar));''', '''    auto loaded = static_cast<T*>(entry.load(ar));
    delete t;
    t = loaded;''')
q('c15-q-own', 'include/Pothos/Archive/ArchiveEntry.hpp', 'std::unique_ptr<T> t(new T());', 'auto t = std::unique_ptr<T>(new T);')
q('c15-q-catchall', OS, '    catch(const Pothos::ArchiveException &ex)\n    {\n        throw ObjectSerializeError("Pothos::Object::deserialize()", ex.what());\n    }\n', '')
q('c15-q-lebfor', 'include/Pothos/Archive/Numbers.hpp', '''    t = T(0);
    unsigned shift(0);
    unsigned char byte;
    do
    {
        ar >> byte;
        if (shift >= sizeof(T)*8) throw Pothos::ArchiveException(
            "Pothos::serialization::load()", "encoded integer is too long");
        t |= T(byte & 0x7f) << shift;
        shift += 7;
    } while ((byte & 0x80) != 0);
}''', '''    t = T(0);
    for (unsigned shift = 0; shift < sizeof(T)*8; shift += 7)
    {
        unsigned char byte;
        ar >> byte;
        t |= T(byte & 0x7f) << shift;
        if ((byte & 0x80) == 0) return;
    }
    throw Pothos::ArchiveException("Pothos::serialization::load()", "encoded integer is too long");
}''')

m('c15-hdrcheck', DG, """        is.read((char *)&header, sizeof(header));
        if (is.eof()) throw Pothos::IOException("recvDatagram()", "stream end");
        if (not is) throw Pothos::IOException("recvDatagram()", "stream error");
""", """        is.read((char *)&header, sizeof(header));
""")
