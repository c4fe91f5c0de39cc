#include <fstream>
#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
static int run();
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    try {
        return run();
    } catch (const std::exception& e) {
        std::cout << e.what() << "\n";
        return 2;
    }
}
int run()
{
    ImageBundle<RGB> b;
    b.image = Image<RGB>(2, 2, RGB{.5f});
    b.alpha = Image<float>(2, 3, .25f);
    write_image_png("a.png", b);
    auto r = read_image_png("a.png");
    std::cout << r.alpha.width() << " " << r.alpha.height() << "\n";
    return r.alpha.size() == 0 || r.alpha(0, 0) > .99f ? 0 : 1;
}
