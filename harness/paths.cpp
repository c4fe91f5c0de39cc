// Replays Paths behaviours on a scratch folder: B is its root, the program itself lies in B/x/y.
#include "common.hpp"
#include <algorithm>
#include <cstdlib>
#include <regex>
#define HUIRA_DEFAULT_DATA_DIR "/the/default"
#include "huira/huira.hpp"
using namespace huira;

static fs::path B, T;
static fs::path below(const fs::path& top, const J& p)
{
    fs::path r = top;
    for (auto& n : p) r /= n.get<std::string>();
    return r;
}
static fs::path rel(const J& p)
{
    fs::path r;
    for (auto& n : p) r /= n.get<std::string>();
    return r;
}
static J names(const fs::path& p, const fs::path& top, const char* what = "OUTSIDE")
{
    fs::path q = fs::absolute(p).lexically_normal().lexically_relative(top);
    J r = J::array();
    for (auto& n : q)
        if (n == "..") return J{what, p.string()};
        else if (n != "." && n != "") r.push_back(n.string());
    return r;
}
static const std::regex fresh_name("huira_log_\\d{8}_\\d{6}\\.txt");
static J listing()
{
    J r = J::array();
    for (auto& e : fs::recursive_directory_iterator(B)) {
        J n = names(e.path(), B);
        if (n[0] == "x") { if (n.size() > 2 && n[2] != "paths") r.push_back(J{n, "stray"}); continue; }
        if (n[0] != "t") { r.push_back(J{n, "stray"}); continue; }
        n.erase(0);
        if (!n.empty()) r.push_back(J{n, e.is_directory() ? "dir" : "file"});
    }
    std::sort(r.begin(), r.end());
    return r;
}
static J step(const J& c)
{
    std::string op = c["op"];
    J p = c.value("p", J::array());
    bool abs = c.value("abs", false);
    J r = "ok";
    try {
        if (op == "reset") {
            fs::current_path(B);
            fs::remove_all(T);
            fs::create_directories(T / "a");
            fs::current_path(T);
            unsetenv("HUIRA_LOG_DIR");
            reset_data_dir();
        } else if (op == "data") set_data_dir(abs ? below(B, p) : rel(p));
        else if (op == "nodata") reset_data_dir();
        else if (op == "cd") fs::current_path(below(T, p));
        else if (op == "env") setenv("HUIRA_LOG_DIR", (abs ? below(T, p) : rel(p)).c_str(), 1);
        else if (op == "noenv") unsetenv("HUIRA_LOG_DIR");
        else if (op == "touch") std::ofstream(below(T, p)) << "mine";
        else if (op == "remove") fs::remove_all(below(T, p));
        else if (op == "make") {
            fs::path q = abs ? below(T, p) : rel(p);
            if (c["slash"]) q /= "";
            make_path(q);
        }
        else if (op == "dump" || op == "fresh") {
            fs::path at = op == "fresh" ? "" : abs ? below(T, p) : rel(p);
            std::string w = Logger::dump_to_file(at.string());
            if (w.empty()) r = J{"NOWHERE"};
            else {
                std::ifstream f(w);
                std::string s;
                std::getline(f, s);
                if (s.find("Huira Log") == std::string::npos) r = "no report in " + w;
                else {
                    r = names(w, T);
                    if (op == "fresh") {
                        if (!std::regex_match(r.back().get<std::string>(), fresh_name)) r = "named " + w;
                        else r.back() = "LOG", fs::remove(w);
                    }
                }
            }
        }
    } catch (const std::exception&) {
        r = "error";
    }
    J o;
    fs::path d = data_dir();
    o["data"] = d == "/the/default" ? J{"DEFAULT"} : names(d, B);
    bool under = spice::get_default_lsk_path() == d / "kernels/lsk/naif0012.tls" && spice::get_default_pck_path() == d / "kernels/pck/pck00011.tpc";
    if (!under || !d.is_absolute()) o["data"] = "kernels elsewhere";
    o["cwd"] = names(fs::current_path(), T);
    o["tree"] = listing();
    o["log"] = names(get_log_file_path("r.txt"), T);
    o["sub"] = names(get_log_file_path("a/r.txt"), T);
    fs::path f = get_log_file_path("");
    o["fresh"] = std::regex_match(f.filename().string(), fresh_name) ? names(f.parent_path() / "LOG", T) : J(f.string());
    return {{"r", r}, {"o", o}};
}
int main()
{
    B = fs::canonical(fs::path(getenv("VF_DIR")));
    T = B / "t";
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    HUIRA_LOG_INFO("something to report");
    return vf::serve(step);
}
