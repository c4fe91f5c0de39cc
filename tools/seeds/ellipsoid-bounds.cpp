#include <fstream>
#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
static int run();
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    try {
        return run();
    } catch (const std::exception& e) {
        std::cout << e.what() << "\n";
        return 2;
    }
}
int run()
{
    Scene<RGB> s;
    auto eye = s.root.new_instance(s.new_camera_model());
    auto e = s.add_primitive(s.add_ellipsoid(units::Meter(1), units::Meter(1), units::Meter(4)));
    s.root.new_instance(e);
    for (int i = 1; i < 9; ++i) s.root.new_instance(e).set_position(units::Meter(0), units::Meter(20 * i), units::Meter(30 * (i % 3)));
    SceneView<RGB> v(s, Interval(Time::from_et(0), Time::from_et(1)), eye, ObservationMode::GEOMETRIC_STATE, 1);
    auto h = v.intersect(Ray<RGB>({-10, 0, 3}, {1, 0, 0}), 0.f);
    std::cout << h.hit() << "\n";
    return h.hit() ? 0 : 1;
}
