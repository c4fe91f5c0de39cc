#include <fstream>
#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
static int run();
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    try {
        return run();
    } catch (const std::exception& e) {
        std::cout << e.what() << "\n";
        return 2;
    }
}
int run()
{
    Scene<RGB> s;
    auto c = s.new_camera_model();
    c.configure_sensor_from_size(Resolution(8, 4), units::Millimeter(8), units::Millimeter(4), std::nullopt, std::nullopt);
    auto p = c.get()->project_point(Vec3<float>{0, 0, 10});
    std::cout << p.x << " " << p.y << "\n";
    return std::abs(p.x - 4) < 1e-3f && std::abs(p.y - 2) < 1e-3f ? 0 : 1;
}
