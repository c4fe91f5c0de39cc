// Replays LogHistory behaviours into the process-wide logger; a fresh process for each behaviour.
#include "common.hpp"
#include "huira/util/logger.hpp"
using namespace huira;
static fs::path dir;
static int sev_of(const std::string& line)
{
    if (line.find("[DEBUG]") != std::string::npos) return 0;
    if (line.find("[INFO") != std::string::npos) return 1;
    if (line.find("[WARN") != std::string::npos) return 2;
    if (line.find("[ERROR]") != std::string::npos) return 3;
    return -1;
}
// The messages of a dump: every line that is a log entry. Anything unexpected shows as such.
static J parse(const fs::path& p)
{
    std::ifstream f(p);
    J out = J::array();
    std::string line;
    while (std::getline(f, line)) {
        auto m = line.rfind(" msg<");
        if (m == std::string::npos) {
            if (line.find("[Thread") != std::string::npos) out.push_back(line);
            continue;
        }
        auto e = line.find(">", m);
        if (e == std::string::npos || e + 1 != line.size()) { out.push_back(line); continue; }
        out.push_back({{"s", sev_of(line)}, {"k", std::stoi(line.substr(m + 5, e - m - 5))}});
    }
    return out;
}
static int nfile = 0;
static J contents()
{
    fs::path p = dir / ("o" + std::to_string(nfile++) + ".txt");
    std::string r = Logger::dump_to_file(p.string());
    if (r != p.string()) return "dump returned " + r;
    J j = parse(p);
    fs::remove(p);
    return j;
}
static J handle(const J& c)
{
    std::string op = c["op"];
    J r;
    bool has = false;
    if (op == "reset") {
        static int n = 0;
        dir = fs::path(std::getenv("VF_DIR")) / ("b" + std::to_string(getpid()));
        fs::create_directories(dir / "logs");
        fs::create_directories(dir / "cwd");
        fs::current_path(dir / "cwd");
        setenv("HUIRA_LOG_DIR", (dir / "logs").c_str(), 1);
        if (c.contains("cap")) Logger::set_buffer_size(c["cap"].get<std::size_t>());
        return J::object();
    }
    if (op == "end") {
        fs::current_path("/");
        fs::remove_all(dir);
        return J::object();
    }
    if (op == "log") {
        for (int i = 0; i < c["n"].get<int>(); ++i)
            Logger::log(static_cast<LogLevel>(c["s"].get<int>()),
                        "msg<" + std::to_string((c["k"].get<int>() + i) % c["m"].get<int>()) + ">");
    } else if (op == "cap") {
        if (c["c"].get<int>() % 2) Logger::set_buffer_size(c["c"]); else set_log_buffer_size(c["c"]);
        r = Logger::get_buffer_size();
        has = true;
    } else if (op == "level") {
        if (c["l"].get<int>() % 2) Logger::set_level(static_cast<LogLevel>(c["l"].get<int>()));
        else set_log_level(static_cast<LogLevel>(c["l"].get<int>()));
        r = static_cast<int>(Logger::get_level());
        has = true;
    } else if (op == "dump") {
        std::string to = c["to"];
        fs::path ask = to == "file" ? dir / "asked.txt"
                     : to == "fallback" ? dir / "no" / "such" / "fallback.txt"
                     : to == "nowhere" ? dir / "no" / "such" / "" : fs::path();
        std::string got = to == "logdir" ? dump_log() : Logger::dump_to_file(ask.string());
        r = J::array();
        has = true;
        std::string where;
        if (got == (dir / "asked.txt").string()) where = "file";
        else if (got == (dir / "cwd" / "fallback.txt").string()) where = "fallback";
        else if (!got.empty() && fs::path(got).parent_path() == dir / "logs") where = "logdir";
        else if (!got.empty()) where = got;
        if (!got.empty()) { r.push_back(where); r.push_back(parse(got)); fs::remove(got); }
        // nothing else may have been written
        for (auto& d : {dir / "cwd", dir / "logs"})
            for (auto& e : fs::directory_iterator(d)) r.push_back("stray " + e.path().string());
    }
    J a = {{"o", {{"cap", Logger::get_buffer_size()},
                  {"lvl", static_cast<int>(Logger::get_level())},
                  {"hist", contents()}}}};
    if (has) a["r"] = r;
    return a;
}
int main() { return vf::serve_forked(handle); }
