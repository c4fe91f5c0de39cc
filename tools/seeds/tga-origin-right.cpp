#include <fstream>
#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
static int run();
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    try {
        return run();
    } catch (const std::exception& e) {
        std::cout << e.what() << "\n";
        return 2;
    }
}
int run()
{
    unsigned char h[18] = {0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 2, 0, 24, 0x30};
    std::ofstream f("t.tga", std::ios::binary);
    f.write(reinterpret_cast<char*>(h), 18);
    unsigned char px[12] = {255, 255, 255, 255, 255, 255, 0, 0, 0, 0, 0, 0};
    f.write(reinterpret_cast<char*>(px), 12);
    f.close();
    auto b = read_image_tga("t.tga");
    std::cout << b.image(0, 0)[0] << " " << b.image(0, 1)[0] << "\n";
    return b.image(0, 0)[0] > .9f && b.image(0, 1)[0] < .1f ? 0 : 1;
}
