#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
static int run();
int main()
{
    Logger::enable_console_warning(false);
    std::cerr.rdbuf(nullptr);
    return run();
}
static bool fails(auto f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
int run()
{
    Scene<RGB> s;
    auto sun = s.new_sphere_light(units::Meter(1), units::Watt(1));
    s.root.new_instance(sun);
    auto f = s.root.new_subframe();
    auto deep = f.new_instance(sun);
    s.delete_light(sun);
    std::cout << (deep.valid() ? "a placement of a deleted light remains\n" : "gone\n");
    return deep.valid() ? 1 : 0;
}
