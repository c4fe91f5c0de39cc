#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
static int run();
int main()
{
    Logger::enable_console_warning(false);
    std::cerr.rdbuf(nullptr);
    return run();
}
static bool fails(auto f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
int run()
{
    Transform<double> a, b;
    a.scale = {2, 2, 2};
    a.angular_velocity = {0, 0, 1};
    b.position = {3, 0, 0};
    auto v = (a * b).velocity, w = a.velocity_of_local_point(b.position);
    std::cout << v.y << " " << w.y << "\n";
    return glm::length(v - w) < 1e-9 ? 0 : 1;
}
