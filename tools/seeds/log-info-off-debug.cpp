#include <iostream>
#include "huira/util/logger.hpp"
using namespace huira;
int main()
{
    Logger::set_level(LogLevel::Debug);
    Logger::enable_console_debug(true);
    Logger::enable_console_info(false);
    bool ok = !Logger::is_console_debug_enabled();
    std::cout << (ok ? "off\n" : "debug output is still on\n");
    return ok ? 0 : 1;
}
