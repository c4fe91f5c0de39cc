#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
int main()
{
    Scene<RGB> s;
    auto m = s.new_material(s.new_bsdf_lambertian());
    m.set_normal_factor(0.f);
    m.reset_normal();
    m.set_normal_image(s.add_texture(Image<Vec3<float>>(1, 1, Vec3<float>{.6f, 0.f, .8f})));
    Interaction<RGB> i{};
    i.normal_g = i.normal_s = {0, 0, 1};
    i.tangent = {1, 0, 0};
    i.bitangent = {0, 1, 0};
    auto n = m.get()->evaluate(i).isect.normal_s;
    std::cout << n.x << " " << n.y << " " << n.z << "\n";
    return std::abs(n.x - .6f) < 1e-4f ? 0 : 1;
}
