#include <iostream>
#include "huira/images/image.hpp"
using namespace huira;
int main()
{
    Image<float> i(2, 5, 0.f);
    for (int y = 0; y < 5; ++y) for (int x = 0; x < 2; ++x) i(x, y) = static_cast<float>(y);
    float v = i.sample_bilinear(0.f, 0.625f);
    std::cout << v << "\n";
    return std::abs(v - 2.5f) < 1e-5f ? 0 : 1;
}
