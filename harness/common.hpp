// Shared by every harness: reads one JSON command a line, answers with one JSON line.
#pragma once
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include <nlohmann/json.hpp>
namespace fs = std::filesystem;
using J = nlohmann::json;

namespace vf {
inline void emit(const J& j)
{
    std::string s = j.dump(-1, ' ', false, J::error_handler_t::replace) + "\n";
    std::fflush(stdout);
    std::size_t done = 0;
    while (done < s.size()) {
        ssize_t n = ::write(1, s.data() + done, s.size() - done);
        if (n <= 0) _exit(9);
        done += static_cast<std::size_t>(n);
    }
}

inline std::vector<J> read_all()
{
    std::vector<J> cmds;
    std::string line;
    while (std::getline(std::cin, line))
        if (!line.empty()) cmds.push_back(J::parse(line));
    return cmds;
}

// One process for all behaviours; "reset" has to restore the initial state.
inline int serve(const std::function<J(const J&)>& handle)
{
    for (const J& c : read_all()) emit(handle(c));
    std::cout.flush();
    return 0;
}

// A fresh process for each behaviour (for process-wide state); the child answers its own reset.
inline int serve_forked(const std::function<J(const J&)>& handle)
{
    std::vector<J> cmds = read_all();
    std::size_t i = 0;
    while (i < cmds.size()) {
        std::size_t e = i + 1;
        while (e < cmds.size() && cmds[e]["op"] != "reset") ++e;
        std::cout.flush();
        std::fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            for (std::size_t k = i; k < e; ++k) emit(handle(cmds[k]));
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (st != 0) return WIFEXITED(st) ? 100 + WEXITSTATUS(st) : 200 + WTERMSIG(st);
        i = e;
    }
    return 0;
}

// Runs f; "ok"/value or "error".
template <typename F>
J guarded(F&& f)
{
    try {
        return f();
    } catch (const std::exception&) {
        return "error";
    }
}
} // namespace vf
