#include <iostream>
#include "huira/images/image.hpp"
using namespace huira;
int main()
{
    Image<float> i(9, 9, 0.f), k(5, 6, 0.f);
    i(4, 4) = 1.f;
    k(2, 3) = 1.f;             // the centre: convolving changes nothing
    i.convolve(k);
    std::cout << i(4, 4) << " " << i(4, 5) << "\n";
    return std::abs(i(4, 4) - 1.f) < 1e-4f ? 0 : 1;
}
