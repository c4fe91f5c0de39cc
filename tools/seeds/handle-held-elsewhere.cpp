#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
static int run();
int main()
{
    Logger::enable_console_warning(false);
    std::cerr.rdbuf(nullptr);
    return run();
}
static bool fails(auto f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
int run()
{
    Scene<RGB> s;
    auto sun = s.new_sphere_light(units::Meter(1), units::Watt(1));
    auto at = s.root.new_instance(sun);
    auto moon = s.new_unresolved_sphere(units::Meter(1), at, 0.5f);
    s.root.delete_instance(at);
    bool ok = !at.valid() && fails([&] { at.set_scale(2.0, 2.0, 2.0); });
    std::cout << (ok ? "refused\n" : "a deleted placement was changed\n");
    return ok ? 0 : 1;
}
