#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
struct Still : RotationCallback {
    void evaluate(const Time&, const Vec3<double>&, const Vec3<double>&) override {}
};
static int run();
int main()
{
    Logger::enable_console_warning(false);
    std::cerr.rdbuf(nullptr);
    return run();
}
static bool fails(auto f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
int run()
{
    Scene<RGB> s;
    auto a = s.root.new_subframe();
    auto b = a.new_subframe();
    a.get()->set_custom_rotation_callback<Still>();
    bool ok = fails([&] { b.set_spice_frame("J2000"); });
    std::cout << (ok ? "refused\n" : "accepted\n");
    return ok ? 0 : 1;
}
