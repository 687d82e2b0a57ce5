// makes the compiler emit the serialization templates for one type of every kind the archive supports
#include <Pothos/Archive.hpp>
#include <Pothos/Object/Serialize.hpp>
#include <complex>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <utility>

template <typename T>
void both(Pothos::Archive::OStreamArchiver &o, Pothos::Archive::IStreamArchiver &i, T &t)
{
    o << t;
    i >> t;
}

void useArchive(Pothos::Archive::OStreamArchiver &o, Pothos::Archive::IStreamArchiver &i, bool &b, char &c, signed char &sc, unsigned char &uc, short &s, unsigned short &us,
    int &n, unsigned int &un, long &l, unsigned long &ul, long long &ll, unsigned long long &ull, float &f, double &d, std::string &st, std::wstring &ws, std::vector<bool> &vb,
    std::vector<std::wstring> &vs, std::vector<int> &vi, std::map<std::string, int> &m, std::set<int> &se, std::pair<int, std::string> &p, std::complex<float> &cf, std::complex<int> &ci,
    Pothos::Object &ob)
{
    both(o, i, b); both(o, i, c); both(o, i, sc); both(o, i, uc); both(o, i, s); both(o, i, us); both(o, i, n); both(o, i, un); both(o, i, l); both(o, i, ul);
    both(o, i, ll); both(o, i, ull); both(o, i, f); both(o, i, d); both(o, i, st); both(o, i, ws); both(o, i, vb); both(o, i, vs); both(o, i, vi); both(o, i, m); both(o, i, se);
    both(o, i, p); both(o, i, cf); both(o, i, ci); both(o, i, ob);
}
