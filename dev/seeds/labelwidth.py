ID='C14-label-width'
PROPERTY='C14'
NEEDS='a label whose width is not one, archived and restored (and something after it in the same archive)'
BREAKS='the width is archived only when it is not the default, but the reader decides by its own, not yet restored width'
EDITS=[('lib/Framework/Label.cpp','    ar & this->width;\n','    if (this->width != 1) ar & this->width;\n')]
DEMO=r'''
#include <Pothos/Framework.hpp>
#include <Pothos/Object/Serialize.hpp>
#include <Pothos/Init.hpp>
#include <sstream>
#include <vector>
int main(void)
{
    Pothos::Label a("a", 1, 10, 4), b("b", 2, 20);
    std::stringstream ss;
    {
        Pothos::Archive::OStreamArchiver ao(ss);
        ao << a; ao << b;
    }
    try
    {
        Pothos::Archive::IStreamArchiver ai(ss);
        Pothos::Label x, y;
        ai >> x; ai >> y;
        return (x.id == "a" and x.index == 10 and x.width == 4 and y.id == "b" and y.index == 20 and y.width == 1) ? 0 : 1;
    }
    catch (...) {return 1;}
}
'''
