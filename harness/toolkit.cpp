// Replays Toolkit behaviours into huira::spice over the stand-in, each in a process of its own.
#include "common.hpp"
#include <thread>
#include "huira/core/spice.hpp"
#include "huira/core/time.hpp"
#include "huira/util/paths.hpp"
#include "huira/util/logger.hpp"
using namespace huira;
using vfspice::st;
static fs::path T;
static void put(const fs::path& p, const std::string& text)
{
    fs::create_directories(p.parent_path());
    std::ofstream(p) << text;
}
static std::string head(const std::string& kind) { return kind == "lsk" ? "KPL/LSK\n" : kind == "bad" ? "BAD\n" : kind == "nomsg" ? "NOMSG\n" : "KPL/FK\n"; }
static void setup()
{
    for (fs::path d : {T / "top", T / "top" / "sub"}) {
        put(d / "good.k", head("good"));
        put(d / "leaps.tls", head("lsk"));
        put(d / "bad.k", head("bad"));
        put(d / "nomsg.k", head("nomsg"));
        put(d / "meta.k", "META\npart.k\n");
    }
    put(T / "top/sub/part.k", head("good"));
    put(T / "top/sub/metabad.k", "META\npart.k\nleaps.tls\nnothere.k\n");
}
static fs::path folder(const std::string& at) { return at == "top" ? T / "top" : T / "top/sub"; }
static fs::path file(const J& c)
{
    fs::path p = folder(c["at"]) / c["name"].get<std::string>();
    if (c.value("form", "rel") == "abs") return p;
    return p.lexically_relative(fs::current_path());
}
static bool near(double a, double b, double tol = 1e-9) { return std::abs(a - b) <= tol * (1 + std::abs(b)); }
static bool near(const Vec3<double>& v, const double* s, double f) { return near(v.x, s[0] * f) && near(v.y, s[1] * f) && near(v.z, s[2] * f); }
static J answer(const std::function<bool()>& f)
{
    try {
        return J{{"ok", f()}, {"text", ""}, {"threw", false}};
    } catch (const std::exception& e) {
        return J{{"ok", false}, {"text", e.what()}, {"threw", true}};
    }
}
static bool turned(const Rotation<double>& r, const double m[6][6])
{
    for (int k = 0; k < 3; ++k) {
        Vec3<double> e{k == 0 ? 1. : 0., k == 1 ? 1. : 0., k == 2 ? 1. : 0.};
        Vec3<double> v = r.inverse() * e; // a parent direction in the frame's coordinates
        if (!near(v.x, m[0][k]) || !near(v.y, m[1][k]) || !near(v.z, m[2][k])) return false;
    }
    return true;
}
static bool one(const J& c)
{
    std::string f = c["f"], how = c.value("how", "ok");
    const double et = 1.25e8 + c.value("k", 0);
    Time t = Time::from_et(et);
    if (f == "furnsh_rel") return spice::furnsh_relative_to_file(folder(c["at"]) / c["name"].get<std::string>()), true;
    if (f == "str2et") return near(spice::str2et(how == "ok" ? "2010-02-03T04:05:06.5" : "no such day"), vfspice::utc_to_et(318441906.5), 1e-14);
    if (f == "deltet") return near(spice::deltet(et, how == "ok" ? "ET" : "SUNDIAL"), et - vfspice::et_to_utc(et), 1e-7);
    if (f == "unitim") return near(spice::unitim(et, how == "from" ? "SUNDIAL" : "TDB", how == "to" ? "HOURGLASS" : "TAI"), vfspice::et_to_tt(et) - 32.184, 1e-15);
    if (f == "timout") return spice::timout(vfspice::utc_to_et(318441906.5), "YYYY-MM-DDTHR:MN:SC.### ::RND ::UTC", 64) == "2010-02-03T04:05:06.500";
    if (f == "spkezr") {
        double s[6];
        st.spk("HERE", et, s);
        auto [r, v, lt] = spice::spkezr<double>(how == "target" ? "NOBODY" : "HERE", t, how == "frame" ? "NOWHERE" : "J2000", "NONE", "SSB");
        return near(r, s, 1000) && near(v, s + 3, 1000) && near(lt, std::sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2]) / 299792.458);
    }
    double x[6][6];
    vfspice::state_matrix("WOBBLE", "SPIN", et, x);
    if (f == "pxform") return turned(spice::pxform<double>(how == "frame" ? "NOWHERE" : "WOBBLE", how == "to" ? "NOWHERE" : "SPIN", t), x);
    if (f == "sxform") {
        auto [r, w] = spice::sxform<double>(how == "frame" ? "NOWHERE" : "WOBBLE", how == "to" ? "NOWHERE" : "SPIN", t);
        double m[3][3], av[3];
        double wx[3][3];
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
            wx[i][j] = 0;
            for (int k = 0; k < 3; ++k) wx[i][j] += x[k + 3][i] * x[k][j];
        }
        av[0] = wx[2][1], av[1] = wx[0][2], av[2] = wx[1][0];
        return turned(r, x) && near(w, av, 1);
    }
    std::array<double, 8> e{7000, .1, .5, 1, 2, .25, 1e8, 398600};
    double s[6];
    if (how == "ok") {
        auto [r, v] = spice::conics<double>(e, t);
        vfspice::st.calls["own"]++;
        // on the orbit with that energy and angular momentum
        double rr = glm::length(r) / 1000, vv = glm::length(v) / 1000, h = glm::length(glm::cross(r, v)) / 1e6;
        double a = 7000;
        return near(vv * vv / 2 - 398600 / rr, -398600 / (2 * a), 1e-6) && near(h * h, 398600 * a * (1 - .01), 1e-6) && (void(s), true);
    }
    if (how == "mu") e[7] = -1;
    else e[0] = -5;
    spice::conics<double>(e, t);
    return true;
}
static J look()
{
    J l = J::array();
    for (const std::string& p : st.loaded) {
        fs::path q = fs::path(p).lexically_relative(T / "top");
        std::string n = q.filename().string(), d = q.parent_path().string();
        l.push_back(J{d == "" ? "top" : d == "sub" ? "sub" : p.find("/data/") != std::string::npos ? "data" : p, n});
    }
    fs::path c = fs::current_path();
    return J{{"loaded", l}, {"cwd", c == T / "top" ? "top" : c == T / "top/sub" ? "sub" : c.string()}, {"pend", st.failed}, {"printed", st.printed}};
}
static J step(const J& c)
{
    std::string op = c["op"];
    J r = J::object();
    if (op == "reset") {
        T = fs::canonical(fs::current_path()) / ("vf_toolkit_" + std::to_string(getpid()));
        fs::create_directories(T);
        setup();
        put(T / "data/kernels/lsk/naif0012.tls", head("lsk"));
        put(T / "data/kernels/pck/pck00011.tpc", head("good"));
        fs::current_path(T / "top");
        set_data_dir(T / "data");
        st.frames["SPIN"] = {1e-4, .3, .2};
        st.frames["WOBBLE"] = {-2e-5, 1, .7};
        st.spk = [](const std::string&, double et, double* s) {
            double v[6] = {1e6 + 3 * (et - 1.25e8), -2e5, 3e4, 3, 0, -1};
            for (int i = 0; i < 6; ++i) s[i] = v[i];
        };
    } else if (op == "file") {
        fs::path p = c["which"] == "lsk" ? T / "data/kernels/lsk/naif0012.tls" : T / "data/kernels/pck/pck00011.tpc";
        fs::remove(p);
        if (c["kind"] != "missing") put(p, head(c["kind"]));
    } else if (op == "cd") fs::current_path(folder(c["to"]));
    else if (op == "stale") {
        if (st.action == "RETURN") vfspice::error("SPICE(STALE)", "left behind");
    } else if (op == "inject") {
        st.fail_on = c["fn"];
        st.fail_msg = c["msg"];
    } else if (op == "calm") st.fail_on.clear();
    else if (op == "furnsh") r["r"] = answer([&] { return spice::furnsh(file(c)), true; });
    else if (op == "furnsh_rel") r["r"] = answer([&] { return spice::furnsh_relative_to_file(file(c)), true; });
    else if (op == "nofolder") r["r"] = answer([&] { return spice::furnsh_relative_to_file(T / "none" / "x.k"), true; });
    else if (op == "pck") r["r"] = answer([&] { return spice::load_default_pck(), true; });
    else if (op == "call") r["r"] = answer([&] { return one(c); });
    else if (op == "threads") {
        std::vector<std::vector<J>> got(c["calls"].size());
        std::atomic<int> ready{0};
        unsigned seed = c["seed"];
        st.on_enter = [&](const char*) {
            thread_local unsigned x = seed * 2654435761u + static_cast<unsigned>(std::hash<std::thread::id>()(std::this_thread::get_id()));
            x = x * 1664525u + 1013904223u;
            if ((x >> 24) % 3) usleep((x >> 16) % 400);
        };
        std::vector<std::thread> th;
        for (std::size_t i = 0; i < got.size(); ++i) th.emplace_back([&, i] {
            ++ready;
            while (ready < static_cast<int>(got.size())) std::this_thread::yield();
            for (const J& x : c["calls"][i]) got[i].push_back(answer([&] { return one(x); }));
        });
        for (auto& t : th) t.join();
        st.on_enter = nullptr;
        r["r"] = got;
    }
    r["o"] = look();
    return r;
}
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    return vf::serve_forked([&](const J& c) {
        J r = step(c);
        return r;
    });
}
