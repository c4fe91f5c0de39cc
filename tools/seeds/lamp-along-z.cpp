#include <fstream>
#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
static int run();
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    try {
        return run();
    } catch (const std::exception& e) {
        std::cout << e.what() << "\n";
        return 2;
    }
}
int run()
{
    SphereLight<RGB> l(units::Meter(1), units::Watt(10));
    Interaction<RGB> i{};
    i.position = {0, 0, 0};
    Transform<float> t;
    t.position = {0, 0, 7};
    RandomSampler<float> dice(1);
    auto s = l.sample_li(i, t, dice);
    std::cout << s->wi.x << " " << s->wi.y << " " << s->wi.z << "\n";
    return std::abs(glm::length(s->wi) - 1) < 1e-4f ? 0 : 1;
}
