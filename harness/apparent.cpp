// Replays Apparent behaviours into Node::get_apparent_transform.
#include "common.hpp"
#include "huira/huira.hpp"
using namespace huira;
static const double C = 299792458.0, Q = 1.5707963267948966;
static Vec3<double> vec(const J& j, double f) { return {j[0].get<double>() * f, j[1].get<double>() * f, j[2].get<double>() * f}; }
static J out(const Vec3<double>& v, double f) { return J{v.x / f, v.y / f, v.z / f}; }
static int run()
{
    Scene<RGB> sc;
    auto frame = sc.root.new_subframe();
    auto inner = frame.new_subframe();
    auto still = sc.root.new_subframe();
    J body, obs;
    auto observer = [&] {
        Transform<double> t{};
        t.position = vec(obs["o"], C);
        t.velocity = {0, 0, 0};
        t.velocity[obs["ax"].get<int>() - 1] = C * obs["f"].get<double>() / obs["g"].get<double>();
        return t;
    };
    return vf::serve([&](const J& c) -> J {
        std::string op = c["op"];
        J r = J::object();
        if (op == "reset") {
            body = J{{"e", {1, 0, 0}}, {"v", {0, 0, 0}}, {"u", {0, 0, 0}}, {"spin", {0, 0, 0}}, {"at", 1}, {"share", 0}, {"k", 1}};
            obs = J{{"o", {0, 0, 0}}, {"ax", 1}, {"f", 0}, {"g", 1}};
        } else if (op == "body") body = c;
        else if (op == "observer") obs = c;
        else if (op == "ray") {
            Vec3<double> e = vec(c["e"], 1), v{0, 0, 0};
            v = observer().velocity;
            r["r"] = out(compute_aberrated_direction(glm::normalize(e), v), 1);
        } else if (op == "look") {
            // where it has to be when the settings hold
            double s = body["at"].get<double>() - body["k"].get<double>();
            Vec3<double> p = vec(obs["o"], C) + vec(body["e"], C) - (vec(body["v"], C / 1000) + vec(body["u"], C / 1000)) * s;
            Vec3<double> part = vec(J{1, -2, 3}, C * body["share"].get<double>());
            frame.set_position(units::Meter(part.x), units::Meter(part.y), units::Meter(part.z));
            frame.get()->set_velocity(vec(body["u"], C / 1000));
            inner.get()->set_position(p - part);
            inner.get()->set_velocity(vec(body["v"], C / 1000));
            inner.get()->set_angular_velocity(vec(body["spin"], Q));
            Time epoch = Time::from_et(c["epoch"].get<double>());
            std::string m = c["mode"];
            auto mode = m == "true" ? ObservationMode::TRUE_STATE : m == "geometric" ? ObservationMode::GEOMETRIC_STATE : ObservationMode::ABERRATED_STATE;
            Transform<double> t = inner.get()->get_apparent_transform(mode, epoch, epoch + units::Second(body["at"].get<double>()), observer());
            J cols = J::array();
            for (int i = 0; i < 3; ++i) {
                Vec3<double> e{0, 0, 0};
                e[i] = 1;
                cols.push_back(out(t.rotation * e, 1));
            }
            r["r"] = {{"p", out(t.position, C)}, {"v", out(t.velocity, C)}, {"cols", cols}};
        }
        return r;
    });
}
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    return run();
}
