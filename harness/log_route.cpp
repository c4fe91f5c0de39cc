// Replays LogRoute behaviours: threshold, sinks, console channels.
#include "common.hpp"
#include "huira/util/logger.hpp"
using namespace huira;
static std::vector<std::array<int, 2>> got; // sink, severity
static int evaluated, seq;
static std::string expect;
static std::string msg()
{
    ++evaluated;
    return expect;
}
static bool good_text = true;
static Logger::CustomSink make(int id)
{
    return [id](const LogEntry& e) {
        got.push_back({id, static_cast<int>(e.level)});
        if (e.message != expect) good_text = false;
        if (id % 2 == 0) throw std::runtime_error("sink");
        if (id % 4 == 3) throw 5;
    };
}
static std::string dump_text()
{
    fs::path p = fs::path(std::getenv("VF_DIR")) / ("r" + std::to_string(getpid()));
    Logger::dump_to_file(p.string());
    std::ifstream f(p);
    std::stringstream ss;
    ss << f.rdbuf();
    fs::remove(p);
    return ss.str();
}
// severities of the messages a console stream shows; -1 for anything unexpected
static J shown(const std::string& s)
{
    static const char* tag[] = {"[DEBUG] ", "[INFO] ", "[WARNING] ", "[ERROR] "};
    J out = J::array();
    std::stringstream ss(s);
    std::string line;
    while (std::getline(ss, line)) {
        if (line.find(expect) == std::string::npos) { if (line.find('[') != std::string::npos) out.push_back(-1); continue; }
        int sev = -1;
        for (int i = 0; i < 4; ++i) if (line.find(tag[i] + expect) != std::string::npos) sev = i;
        out.push_back(sev);
    }
    return out;
}
static J handle(const J& c)
{
    std::string op = c["op"];
    J a;
    if (op == "reset") {
        Logger::set_buffer_size(4);
        return J::object();
    }
    if (op == "level") set_log_level(static_cast<LogLevel>(c["l"].get<int>()));
    else if (op == "sink") {
        int x = c["x"];
        if (x) { if (x % 2) set_log_sink(make(x)); else Logger::set_custom_sink(make(x)); }
        else if (seq++ % 2) Logger::clear_custom_sink();
        else Logger::set_custom_sink(nullptr);
    } else if (op == "console") {
        bool on = c["on"];
        switch (c["ch"].get<int>()) {
        case 3: if (on) enable_console_debug(); else Logger::enable_console_debug(false); break;
        case 2: if (on) enable_console_info(); else Logger::enable_console_info(false); break;
        default: if (on) enable_console_warning(); else Logger::enable_console_warning(false);
        }
    } else if (op == "log") {
        std::string via = c["via"];
        int s = c["s"];
        expect = "note-" + std::to_string(++seq) + "-end";
        got.clear();
        evaluated = 0;
        good_text = true;
        bool threw = false;
        std::ostringstream o, e;
        auto *ob = std::cout.rdbuf(o.rdbuf()), *eb = std::cerr.rdbuf(e.rdbuf());
        try {
            if (via == "direct") Logger::log(static_cast<LogLevel>(s), msg());
            else if (via == "throw") HUIRA_THROW_ERROR(msg());
            else if (s == 0) HUIRA_LOG_DEBUG(msg());
            else if (s == 1) HUIRA_LOG_INFO(msg());
            else if (s == 2) HUIRA_LOG_WARNING(msg());
            else HUIRA_LOG_ERROR(msg());
        } catch (const std::runtime_error& x) {
            threw = std::string(x.what()) == expect;
        } catch (...) {
            got.push_back({-1, -1}); // a sink's failure reached the caller
        }
        std::cout.rdbuf(ob);
        std::cerr.rdbuf(eb);
        std::string d = dump_text();
        auto at = d.find(expect);
        bool rec = at != std::string::npos && d.find(expect, at + 1) == std::string::npos;
        J snk = 0;
        if (got.size() == 1 && got[0][1] == s) snk = got[0][0];
        else if (!got.empty()) snk = J(got);
        if (!good_text) snk = "wrong text";
        a["r"] = {{"recorded", rec}, {"sink", snk}, {"evaluated", evaluated == 1}, {"out", shown(o.str())},
                  {"err", shown(e.str())}, {"threw", threw}};
        if (evaluated > 1) a["r"]["evaluated"] = evaluated;
    }
    a["o"] = {{"lvl", static_cast<int>(Logger::get_level())},
              {"console", {Logger::is_console_debug_enabled(), Logger::is_console_info_enabled(), Logger::is_console_warning_enabled()}}};
    return a;
}
int main() { return vf::serve_forked(handle); }
