#include <memory>
#include <vector>
#include <iostream>
#include "huira/core/spectral_bins.hpp"
#include "huira/volumes/density/constant_density_field.hpp"
#include "huira/volumes/medium_stack.hpp"
#include "huira/volumes/scattering/isotropic_scatter.hpp"
using namespace huira;
int main()
{
    Primitive<RGB> fog, rock;
    fog.medium = std::make_shared<Medium<RGB>>(std::make_shared<ConstantDensityField<RGB>>(RGB{1.f}, RGB{0.5f}),
                                               std::make_shared<IsotropicPhaseFunction<RGB>>());
    MediumStack<RGB> m;
    m.toggle(&fog);
    m.toggle(&rock);
    bool ok = m.top() == fog.medium.get() && m.size() == 1;
    std::cout << (ok ? "still in fog\n" : "out of the fog\n");
    return ok ? 0 : 1;
}
