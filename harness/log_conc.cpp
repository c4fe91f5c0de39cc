// Runs scripted threads against the logger and records what happened, for trace validation.
#include "common.hpp"
#include <thread>
#include "huira/util/logger.hpp"
using namespace huira;
static std::atomic<int> ticket{0};
static std::string text(int k)
{
    return "msg<" + std::to_string(k) + ":" + std::string(static_cast<std::size_t>((k * 7) % 61), static_cast<char>('a' + k % 26)) + ">";
}
static int id_of(const std::string& m, std::size_t at)
{
    int k = std::atoi(m.c_str() + at + 4);
    return m.compare(at, std::string::npos, text(k)) == 0 ? k : -1;
}
static int sev_of(const std::string& line)
{
    if (line.find("[DEBUG]") != std::string::npos) return 0;
    if (line.find("[INFO") != std::string::npos) return 1;
    if (line.find("[WARN") != std::string::npos) return 2;
    if (line.find("[ERROR]") != std::string::npos) return 3;
    return -1;
}
static J dump(int t)
{
    fs::path p = fs::path(std::getenv("VF_DIR")) / ("c" + std::to_string(getpid()) + "_" + std::to_string(t));
    std::string r = Logger::dump_to_file(p.string());
    J out = J::array();
    std::ifstream f(p);
    std::string line;
    while (std::getline(f, line)) {
        if (line.find("[Thread") == std::string::npos) continue;
        auto m = line.rfind("msg<");
        out.push_back({{"s", sev_of(line)}, {"k", m == std::string::npos ? -1 : id_of(line, m)}});
    }
    if (r != p.string()) out.push_back({{"s", -1}, {"k", -2}});
    return out;
}
static std::mutex smu;
static std::vector<std::array<int, 3>> delivered; // sink, severity, id
static Logger::CustomSink make(int id, bool throws)
{
    return [id, throws](const LogEntry& e) {
        {
            std::lock_guard<std::mutex> l(smu);
            delivered.push_back({id, static_cast<int>(e.level), id_of(e.message, 0)});
        }
        if (throws) throw std::runtime_error("sink");
    };
}
static void apply_sink(int id) { if (id) Logger::set_custom_sink(make(id, id % 2 == 0)); else Logger::clear_custom_sink(); }
static J handle(const J& c)
{
    if (c["op"] == "reset") return J::object();
    // run: threads = list of op lists
    Logger::set_buffer_size(1);
    Logger::set_buffer_size(c["cap"].get<std::size_t>());
    Logger::set_level(static_cast<LogLevel>(c["lvl"].get<int>()));
    apply_sink(c["sink"]);
    delivered.clear();
    J out;
    out["hist"] = dump(99);
    ticket = 1;
    const auto& th = c["threads"];
    std::vector<J> res(th.size());
    std::vector<std::thread> ts;
    std::atomic<int> gate{0};
    for (std::size_t t = 0; t < th.size(); ++t) {
        ts.emplace_back([&, t] {
            J mine = J::array();
            struct Rec { int i, r; J res; };
            std::vector<Rec> rec;
            rec.reserve(th[t].size());
            gate.fetch_add(1);
            while (gate.load() < static_cast<int>(th.size())) {}
            for (const J& o : th[t]) {
                std::string op = o["op"];
                int a = o.value("s", 0), k = o.value("k", 0), n = o.value("c", 0), l = o.value("l", 0);
                std::string m = op == "log" ? text(k) : "";
                Rec r{};
                r.i = ticket.fetch_add(1);
                if (op == "log") Logger::log(static_cast<LogLevel>(a), m);
                else if (op == "cap") { Logger::set_buffer_size(static_cast<std::size_t>(n)); }
                else if (op == "level") Logger::set_level(static_cast<LogLevel>(l));
                else if (op == "sink") apply_sink(n);
                else if (op == "dump") r.res = dump(static_cast<int>(t));
                else if (op == "size") (void)Logger::get_buffer_size();
                r.r = ticket.fetch_add(1);
                rec.push_back(std::move(r));
            }
            for (auto& r : rec) { J x; x["i"] = r.i; x["r"] = r.r; if (!r.res.is_null()) x["res"] = r.res; mine.push_back(x); }
            res[t] = mine;
        });
    }
    for (auto& t : ts) t.join();
    Logger::clear_custom_sink();
    out["threads"] = res;
    out["final"] = dump(98);
    out["cap"] = Logger::get_buffer_size();
    out["delivered"] = J::array();
    for (auto& d : delivered) out["delivered"].push_back({d[0], d[1], d[2]});
    return out;
}
int main() { return vf::serve(handle); }
