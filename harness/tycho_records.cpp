// Replays TychoRecords behaviours: writes the lines to a file and reads it with read_tycho2_*.
#include "common.hpp"
#include "huira/huira.hpp"
#include "huira/stars/io/load_tycho2.hpp"
using namespace huira;
static std::vector<J> lines;
static std::string text(const std::string& f, const J& v, int width)
{
    char b[64];
    if (v.is_string()) return v;
    long n = v;
    if (n == -1999999999) return std::string(width, ' ');
    if (n == -1999999998) return std::string(width, width % 2 ? '-' : 'x');
    if (f == "t1" || f == "t2" || f == "t3") std::snprintf(b, sizeof b, "%0*ld", width, n);
    else if (f == "ra" || f == "de" || f == "ora" || f == "ode") std::snprintf(b, sizeof b, "%*.8f", width, n / 1e6);
    else if (f == "pmra" || f == "pmde") std::snprintf(b, sizeof b, "%*.1f", width, n / 10.0);
    else if (f == "bt" || f == "vt") std::snprintf(b, sizeof b, "%*.3f", width, n / 1000.0);
    else std::snprintf(b, sizeof b, "%*.2f", width, n / 100.0);
    return b;
}
static std::string render(const J& l, const J& cols, int length)
{
    if (!l["data"].get<bool>()) return l["text"];
    std::string s(length, ' ');
    for (auto& [f, c] : cols.items()) {
        int from = c[0], to = c[1];
        std::string t = text(f, l[f], to - from);
        if (int(t.size()) != to - from) throw std::logic_error("width of " + f + ": " + t);
        s.replace(from, to - from, t);
        if (to < length) s[to] = f == "t1" || f == "t2" ? ' ' : '|';
    }
    // fields nobody reads: filled, so that a shifted column is noticed
    std::vector<bool> used(length, false);
    for (auto& [f, c] : cols.items()) for (int i = c[0]; i <= c[1].get<int>() && i < length; ++i) used[i] = true;
    for (int i = 14; i < length; ++i) if (!used[i]) s[i] = char('1' + i % 9);
    return s.substr(0, std::min<std::size_t>(l["cut"].get<int>(), s.size()));
}
static J nan_or(double d) { return std::isnan(d) ? J("nan") : J(d); }
int main()
{
    Logger::enable_console_warning(false);
    fs::path file = fs::current_path() / ("tyc" + std::to_string(getpid()) + ".dat");
    int rc = vf::serve([&](const J& c) {
        J a = J::object();
        std::string op = c["op"];
        if (op == "reset") lines.clear();
        else if (op == "line") lines.push_back(c["l"]);
        else if (op == "missing") {
            fs::remove(file);
            a["r"] = vf::guarded([&]() -> J { c["which"] == "main" ? read_tycho2_dat(file) : read_tycho2_suppl(file); return "ok"; });
        } else if (op == "read") {
            bool main = c["which"] == "main";
            std::string end = c["ending"] == "crlf" ? "\r\n" : "\n";
            {
                std::ofstream f(file, std::ios::binary);
                for (std::size_t i = 0; i < lines.size(); ++i) f << render(lines[i], c["cols"], main ? 206 : 122) << (i + 1 < lines.size() || c["last"].get<bool>() ? end : "");
            }
            a["r"] = vf::guarded([&]() -> J {
                J l = J::array();
                for (const StarData& s : main ? read_tycho2_dat(file) : read_tycho2_suppl(file))
                    l.push_back({{"id", s.id}, {"ra", nan_or(s.RA)}, {"de", nan_or(s.DEC)}, {"pmra", nan_or(s.pmRA)}, {"pmde", nan_or(s.pmDEC)},
                                 {"mag", nan_or(s.visual_magnitude)}, {"temp", nan_or(s.temperature)}, {"omega", nan_or(s.solid_angle)}});
                return l;
            });
        } else if (op == "calibrate") {
            StarData s{};
            auto v = [&](const char* k) { return c[k].get<long>() == -1999999999 ? std::numeric_limits<double>::quiet_NaN() : c[k].get<long>() / 1000.0; };
            s.process_magnitude(v("bt"), v("vt"));
            a["r"] = {nan_or(s.visual_magnitude), nan_or(s.temperature), nan_or(s.solid_angle)};
        }
        a["o"] = J::array();
        return a;
    });
    fs::remove(file);
    return rc;
}
