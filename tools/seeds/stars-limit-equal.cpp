#include <cmath>
#include <iostream>
#include "huira/stars/io/star_catalog.hpp"
using namespace huira;
int main()
{
    std::vector<StarData> v;
    for (float m : {1.f, 2.f, 2.f, 2.f, 3.f, 4.f, 5.f, 6.f}) {
        StarData s{};
        s.visual_magnitude = m;
        v.push_back(s);
    }
    StarCatalog c(v);
    c.write_star_data("c.hrsc");
    auto n = StarCatalog::read_star_data("c.hrsc", 2.f).get_star_data().size();
    std::cout << n << "\n";
    return n == 4 ? 0 : 1;
}
