#include <fstream>
#include <iostream>
#include <sstream>
#include "huira/util/logger.hpp"
using namespace huira;
int main()
{
    Logger::enable_console_warning(false);
    Logger::set_level(LogLevel::Debug);
    Logger::set_buffer_size(4);
    for (int i = 0; i < 6; ++i) Logger::log(LogLevel::Info, "m" + std::to_string(i));
    Logger::set_buffer_size(2);
    std::ifstream f(Logger::dump_to_file("out.txt"));
    std::stringstream s;
    s << f.rdbuf();
    bool ok = s.str().find("m4") != std::string::npos && s.str().find("m5") != std::string::npos && s.str().find("m2") == std::string::npos;
    std::cout << (ok ? "kept the newest\n" : "lost the newest\n");
    return ok ? 0 : 1;
}
