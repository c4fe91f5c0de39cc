#include <fstream>
#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
static int run();
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    try {
        return run();
    } catch (const std::exception& e) {
        std::cout << e.what() << "\n";
        return 2;
    }
}
int run()
{
    const double C = 299792458.0;
    Scene<RGB> s;
    auto f = s.root.new_subframe();
    f.get()->set_velocity(Vec3<double>{0, C / 10, 0});
    auto b = f.new_subframe();
    b.get()->set_position(Vec3<double>{C * 10, 0, 0});
    Transform<double> o{};
    Time t = Time::from_et(0);
    auto r = b.get()->get_apparent_transform(ObservationMode::GEOMETRIC_STATE, t, t, o);
    std::cout << r.position.y / C << "\n";
    return std::abs(r.position.y / C + 1) < .02 ? 0 : 1;
}
