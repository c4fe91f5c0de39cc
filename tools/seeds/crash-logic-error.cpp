#include <sys/wait.h>
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include <vector>
#include "huira/util/logger.hpp"
using namespace huira;
int main()
{
    auto dir = std::filesystem::current_path();
    setenv("XDG_STATE_HOME", dir.c_str(), 1), setenv("HOME", dir.c_str(), 1), setenv("HUIRA_LOG_DIR", dir.c_str(), 1);
    if (!fork()) {
        std::freopen("err.txt", "w", stderr);
        Logger::enable_crash_handler(true);
        std::vector<int> v;
        [&]() noexcept { throw std::out_of_range("the very cause"); }();
    }
    wait(nullptr);
    std::string all;
    for (auto& e : std::filesystem::recursive_directory_iterator(dir))
        if (e.is_regular_file() && e.file_size() < 100000) {
            std::ifstream f(e.path());
            std::stringstream s;
            s << f.rdbuf();
            if (e.path().filename() != "err.txt" && e.path().extension() != "") all += s.str();
        }
    bool ok = all.find("the very cause") != std::string::npos;
    std::cout << (ok ? "told" : "not told") << "\n";
    return ok ? 0 : 1;
}
