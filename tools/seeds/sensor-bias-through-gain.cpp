#include <fstream>
#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
static int run();
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    try {
        return run();
    } catch (const std::exception& e) {
        std::cout << e.what() << "\n";
        return 2;
    }
}
int run()
{
    SensorConfig<RGB> c;
    c.resolution = Resolution(2, 2);
    c.full_well_capacity = 1e5f;
    c.simulate_noise = true;
    c.read_noise = 0;
    c.dark_current = 0;
    c.bias_level_dn = 100;
    c.bit_depth = 12;
    c.gain = 4;
    std::mt19937 rng(1);
    std::normal_distribution<float> unit(0.f, 1.f);
    float v = noise_and_adc(0.f, 0.f, c, 4095.f, rng, unit) * 4095;
    std::cout << v << "\n";
    return std::abs(v - 100) < .01f ? 0 : 1;
}
