#include <cmath>
#include <iostream>
#include <vector>
#include "huira/core/spectral_bins.hpp"
using namespace huira;
// a straight line sampled coarsely and with an extra sample on the edge between two bins
template <std::size_t E> bool same()
{
    using S = SpectralBins<2, 400, E, E, 900>;
    const double e = E;
    S a = S::integrate_over_data({300, 900}, {0.f, 600.f});
    S b = S::integrate_over_data({300, 410, e, 900}, {0.f, 110.f, static_cast<float>(E - 300), 600.f});
    std::cout << E << ": " << a[0] << " " << b[0] << "\n";
    return std::abs(a[0] - b[0]) < 1e-2f;
}
int main()
{
    bool ok = same<550>();
    ok = same<500>() && ok;
    ok = same<420>() && ok;
    ok = same<600>() && ok;
    ok = same<700>() && ok;
    ok = same<650>() && ok;
    ok = same<750>() && ok;
    return ok ? 0 : 1;
}
