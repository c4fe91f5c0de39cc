#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
struct Jump : PositionCallback {
    void evaluate(const Time& t, const Rotation<double>&, const Vec3<double>&) override { position = {t.et() < 0.5 ? 0.0 : 20.0, 0, -10}; }
};
static int run();
int main()
{
    Logger::enable_console_warning(false);
    std::cerr.rdbuf(nullptr);
    return run();
}
static bool fails(auto f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
#include <fstream>
int run()
{
    std::ofstream("m.obj") << "v -1 -1 0\nv 1 -1 0\nv 0 1 0\nvn 0 0 1\nf 1//1 2//1 3//1\n";
    Scene<RGB> s;
    auto eye = s.root.new_instance(s.new_camera_model());
    auto at = s.root.new_instance(s.load_model("m.obj"));
    at.get()->set_custom_position_callback<Jump>();
    auto v = std::make_unique<SceneView<RGB>>(s, Interval(Time::from_et(0), Time::from_et(1)), eye, ObservationMode::GEOMETRIC_STATE, 2);
    bool first = v->intersect(Ray<RGB>({0, 0, 0}, {0, 0, -1}), 0.f).hit();
    bool last = v->intersect(Ray<RGB>({20, 0, 0}, {0, 0, -1}), 1.f).hit();
    std::cout << first << last << "\n";
    return first && last ? 0 : 1;
}
