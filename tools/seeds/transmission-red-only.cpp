#include <fstream>
#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
static int run();
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    try {
        return run();
    } catch (const std::exception& e) {
        std::cout << e.what() << "\n";
        return 2;
    }
}
int run()
{
    Scene<RGB> s;
    auto eye = s.root.new_instance(s.new_camera_model());
    VertexBuffer<RGB> vb(3);
    Vec3<float> p[] = {{0, -9, -9}, {0, 9, -9}, {0, 0, 9}};
    for (int i = 0; i < 3; ++i) vb[i].position = p[i], vb[i].normal = {1, 0, 0};
    auto m = s.new_material(s.new_bsdf_lambertian());
    m.set_transmission_factor(RGB{0, .5f, .25f});
    m.set_alpha_factor(1.f);
    s.root.new_instance(s.add_primitive(s.add_mesh({0, 1, 2}, vb), m)).set_position(units::Meter(5), units::Meter(0), units::Meter(0));
    SceneView<RGB> v(s, Interval(Time::from_et(0), Time::from_et(1)), eye, ObservationMode::GEOMETRIC_STATE, 1);
    RandomSampler<float> dice(1);
    MediumStack<RGB> stack;
    auto t = v.evaluate_transmittance(Ray<RGB>({0, 0, 0}, {1, 0, 0}), 10.f, stack, dice, 0.f);
    std::cout << t[0] << " " << t[1] << " " << t[2] << "\n";
    return t[0] == 0 && std::abs(t[1] - .5f) < 1e-4f && std::abs(t[2] - .25f) < 1e-4f ? 0 : 1;
}
