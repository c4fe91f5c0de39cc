#include <iostream>
#include <set>
#include "huira/huira.hpp"
using namespace huira;
static int run();
int main()
{
    Logger::enable_console_warning(false);
    std::cerr.rdbuf(nullptr);
    return run();
}
static bool fails(auto f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
int run()
{
    Scene<RGB> s;
    std::set<std::string> names;
    for (int i = 0; i < 13; ++i) names.insert(s.new_sphere_light(units::Meter(1), units::Watt(1), "sun").name());
    std::cout << names.size() << " names for 13 lights\n";
    return names.size() == 13 ? 0 : 1;
}
