// Replays Orbits behaviours into nodes with Keplerian orbits over the SPICE stand-in.
#include "common.hpp"
#include "huira/huira.hpp"
using namespace huira;
static const double Q = 1.5707963267948966;
struct Elements { double a, e, M0, epoch, mu, n; };
static int run()
{
    std::unique_ptr<Scene<RGB>> sc;
    std::vector<std::optional<FrameHandle<RGB>>> nd;
    std::map<int, Elements> orb;
    std::map<int, int> par;
    double zero = 0;
    auto fresh = [&](int i, int p) {
        // the same node, unless it hangs elsewhere now
        if (nd[i] && par[i] == p) return;
        nd[i] = p ? nd[p]->new_subframe() : sc->root.new_subframe();
        par[i] = p;
    };
    auto handle = [&](const J& c) -> J {
        std::string op = c["op"];
        J r = J::object();
        if (op == "reset") {
            nd.clear();
            sc.reset();
            sc = std::make_unique<Scene<RGB>>();
            nd.resize(5);
            par.clear(), orb.clear();
            for (int i = 1; i < 5; ++i) fresh(i, 0);
        } else if (op == "orbit") {
            int i = c["i"];
            fresh(i, c["par"]);
            Elements o;
            o.a = 5e3 * c["size"].get<double>();  // km
            o.e = c["ecc"].get<double>() / 5;
            o.mu = std::vector<double>{398600.4418, 4902.8, 1.32712440018e11}.at(c["body"].get<std::size_t>());
            o.epoch = c["epoch"];
            o.n = std::sqrt(o.mu / (o.a * o.a * o.a));
            double E0 = c["e0"].get<double>() / 10;
            o.M0 = E0 - o.e * std::sin(E0);
            orb[i] = o;
            auto turns = [&](const char* k) { return units::Radian(Q * c[k].get<double>()); };
            nd[i]->get()->set_keplerian_orbit(units::Kilometer(o.a), o.e, turns("inc"), turns("raan"), turns("argp"), units::Radian(o.M0), Time::from_et(o.epoch), o.mu);
            std::string f = c["face"];
            if (f == "up") nd[i]->get()->set_z_up_y_forward_callback();
            else if (f == "down") nd[i]->get()->set_z_down_y_forward_callback();
            else nd[i]->get()->set_rotation(Rotation<double>());
        } else if (op == "rest") {
            int i = c["i"];
            fresh(i, c["par"]);
            orb.erase(i);
            nd[i]->get()->set_position(Vec3<double>{c["p"][0].get<double>(), c["p"][1].get<double>(), c["p"][2].get<double>()} * 1e6);
            nd[i]->get()->set_velocity(Vec3<double>{0, 0, 0});
            Vec3<double> ax{0, 0, 0};
            ax[c["ax"].get<int>() - 1] = 1;
            nd[i]->get()->set_rotation(Rotation<double>::from_local_to_parent(ax, units::Radian(Q * c["turn"].get<double>())));
        } else if (op == "see") {
            int i = c["i"], k = c["by"];
            double et = c["when"].get<double>();
            if (k) {
                const Elements& o = orb.at(k);
                double E = Q * c["q"].get<double>();
                et = o.epoch + (E - o.e * std::sin(E) + 4 * Q * c["rev"].get<double>() - o.M0) / o.n;
            }
            Transform<double> t = nd[i]->get()->get_apparent_transform(ObservationMode::TRUE_STATE, Time::from_et(zero), Time::from_et(et), Transform<double>{});
            J cols = J::array();
            for (int a = 0; a < 3; ++a) {
                Vec3<double> e{0, 0, 0};
                e[a] = 1;
                Vec3<double> d = t.rotation * e;
                cols.push_back(J{d.x, d.y, d.z});
            }
            r["r"] = {{"p", {t.position.x / 1e6, t.position.y / 1e6, t.position.z / 1e6}}, {"cols", cols},
                      {"v", {t.velocity.x / 1e6, t.velocity.y / 1e6, t.velocity.z / 1e6}}, {"n", k ? orb.at(k).n : 0}};
        }
        return r;
    };
    return vf::serve([&](const J& c) -> J {
        try {
            return handle(c);
        } catch (const std::exception& e) {
            return J{{"threw", e.what()}, {"r", "error"}};
        }
    });
}
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    vfspice::st.action = "RETURN";
    int rc = run();
    return rc;
}
