#include <cmath>
#include <iostream>
#include "huira/units/units.hpp"
using namespace huira::units;
int main()
{
    SiderealDay d(2);
    double got = (1.0 / d).to_si(), want = 1.0 / d.to_si();
    std::cout << got << " " << want << "\n";
    return std::abs(got / want - 1) < 1e-12 ? 0 : 1;
}
