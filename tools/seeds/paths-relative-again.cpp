#include <iostream>
#include "huira/util/paths.hpp"
using namespace huira;
int main()
{
    fs::create_directories("elsewhere/data");
    fs::current_path("elsewhere");
    set_data_dir("data");
    bool ok = data_dir() == Paths::executable_dir() / "data";
    std::cout << data_dir() << "\n";
    return ok ? 0 : 1;
}
