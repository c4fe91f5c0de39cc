#include <fstream>
#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
static int run();
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    try {
        return run();
    } catch (const std::exception& e) {
        std::cout << e.what() << "\n";
        return 2;
    }
}
int run()
{
    BrownDistortion<RGB> d(BrownCoefficients(0, 0, 0, 0, .01));
    auto p = d.distort(Pixel{.4f, .1f});
    double want = .4 + .01 * (.17 + 2 * .16);
    std::cout << p.x << " " << want << "\n";
    return std::abs(p.x - want) < 1e-5 ? 0 : 1;
}
