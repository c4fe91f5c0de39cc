// Each behaviour runs in a child process that ends by a fatal cause; the parent reports how.
#include "common.hpp"
#include <csignal>
#include <poll.h>
#include <sys/resource.h>
#include <thread>
#include "huira/util/logger.hpp"
using namespace huira;
static const char* names[] = {"alpha-scope", "beta-scope", "gamma-scope"};
static std::vector<std::unique_ptr<ScopeLogger>> scopes;
static volatile int zero = 0;
static int* volatile nowhere = nullptr;
__attribute__((noinline)) static void do_die(const std::string& c);
struct Own : std::exception {
    const char* what() const noexcept override { return "boom-own"; }
};
static void boom() noexcept { throw std::runtime_error("boom-noexcept"); }
static void do_die(const std::string& c)
{
    if (c == "segv") *nowhere = 1;
    else if (c == "segv_raise") std::raise(SIGSEGV);
    else if (c == "abort") std::abort();
    else if (c == "abort_raise") std::raise(SIGABRT);
    else if (c == "fpe") { volatile int y = 5; volatile int x = y / zero; (void)x; }
    else if (c == "fpe_raise") std::raise(SIGFPE);
    else if (c == "ill_raise") std::raise(SIGILL);
    else if (c == "bus_raise") std::raise(SIGBUS);
    else if (c == "throw_runtime") throw std::runtime_error("boom-runtime");
    else if (c == "throw_range") throw std::out_of_range("boom-range");
    else if (c == "throw_own") throw Own();
    else if (c == "throw_int") throw 7;
    else if (c == "noexcept") boom();
    else if (c == "terminate") std::terminate();
}
static void entry(const std::string& c) noexcept(false) { do_die(c); _exit(77); /* survived */ }
static void child(const J& c)
{
    std::string op = c["op"];
    if (op == "log")
        for (int i = 0; i < c["n"].get<int>(); ++i)
            Logger::log(LogLevel::Warning, "msg<" + std::to_string(c["from"].get<int>() + i) + ">");
    else if (op == "enable") Logger::enable_crash_handler(c["on"]);
    else if (op == "cap") Logger::set_buffer_size(c["c"]);
    else if (op == "scope") {
        if (c["up"]) scopes.push_back(std::make_unique<ScopeLogger>(names[scopes.size()]));
        else scopes.pop_back();
    } else if (op == "die") {
        std::string s = c["second"], cause = c["cause"];
        if (s != "none")
            Logger::set_custom_sink([s](const LogEntry&) {
                if (s == "sink_throw") throw std::runtime_error("sink");
                if (s == "sink_segv") *nowhere = 2;
                if (s == "sink_abort") std::abort();
                if (s == "sink_terminate") std::terminate();
            });
        if (c["thread"]) {
            std::thread t([cause] { entry(cause); });
            std::this_thread::sleep_for(std::chrono::seconds(20));
            _exit(78);
        }
        // outside any catch
        [cause]() noexcept { do_die(cause); }();
        _exit(77);
    }
}
static std::string slurp(const fs::path& p)
{
    std::ifstream f(p);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
static J report(const fs::path& p)
{
    J msgs = J::array(), other = J::array();
    std::stringstream f(slurp(p));
    std::string line;
    while (std::getline(f, line)) {
        if (line.find("[Thread") == std::string::npos) continue;
        auto m = line.rfind(" msg<");
        if (m != std::string::npos) msgs.push_back(std::atoi(line.c_str() + m + 5));
        else other.push_back(line.substr(line.find("[Thread")));
    }
    return {{"msgs", msgs}, {"other", other}};
}
int main()
{
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    std::vector<J> cmds = vf::read_all();
    fs::path base = std::getenv("VF_DIR");
    std::size_t i = 0;
    int limit = 1500;
    while (i < cmds.size()) {
        std::size_t e = i + 1;
        while (e < cmds.size() && cmds[e]["op"] != "reset") ++e;
        fs::path dir = base / ("x" + std::to_string(i));
        fs::create_directories(dir / "logs");
        pid_t pid = fork();
        if (pid == 0) {
            setenv("HUIRA_LOG_DIR", (dir / "logs").c_str(), 1);
            freopen((dir / "err").c_str(), "w", stderr);
            Logger::set_level(LogLevel::Debug);
            Logger::set_buffer_size(cmds[i]["cap"].get<std::size_t>());
            for (std::size_t k = i; k < e; ++k) child(cmds[k]);
            fflush(stderr);
            _exit(0);
        }
        int st = 0, waited = 0;
        while (waitpid(pid, &st, WNOHANG) == 0) {
            usleep(waited < 200 ? 500 : 5000);
            if (++waited > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); waited = -1; limit = 250; break; }
        }
        for (std::size_t k = i; k + 1 < e; ++k) vf::emit(J::object());
        J r;
        r["end"] = waited == -1 ? -1 : WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st);
        r["files"] = J::array();
        for (auto& f : fs::directory_iterator(dir / "logs")) r["files"].push_back(report(f.path()));
        std::string err = slurp(dir / "err");
        int shown = 0;
        for (auto p = err.find("Log file written"); p != std::string::npos; p = err.find("Log file written", p + 1)) ++shown;
        r["shown"] = shown;
        vf::emit(r);
        fs::remove_all(dir);
        i = e;
    }
    return 0;
}
