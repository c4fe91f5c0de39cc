#include <fstream>
#include <iostream>
#include "huira/huira.hpp"
#include "huira/stars/io/load_tycho2.hpp"
using namespace huira;
int main()
{
    std::string l(122, ' ');
    auto put = [&](std::size_t at, const std::string& s) { l.replace(at, s.size(), s); };
    put(0, "0001 00008 1");
    put(15, " 10.00000000"), put(28, " 20.00000000");
    put(96, " 4.250");
    std::ofstream("s.dat") << l << "\n";
    auto a = read_tycho2_suppl("s.dat");
    std::cout << a.size() << "\n";
    return a.size() == 1 ? 0 : 1;
}
