// Replays Brightness behaviours: puts lamps and unresolved bodies and asks how bright they are.
#include "common.hpp"
#include "huira/huira.hpp"
using namespace huira;
using V = Vec3<double>;
static double num(const J& v)
{
    if (v.is_string()) return v == "nan" ? std::nan("") : v == "inf" ? INFINITY : -INFINITY;
    return v.get<double>();
}
template <typename T>
struct World {
    Scene<T> sc;
    std::unique_ptr<FrameHandle<T>> rig;
    std::vector<LightHandle<T>> lamps;
    std::vector<InstanceHandle<T>> posts;
    std::vector<UnresolvedObjectHandle<T>> things;
    CameraModelHandle<T> cam = sc.new_camera_model();
    std::unique_ptr<InstanceHandle<T>> eye;
    double u = 1;
    World() { cam.configure_sensor_from_pitch(Resolution(4, 4), units::Micrometer(10), std::nullopt, std::nullopt, std::nullopt); }
    static J told(const T& s)
    {
        J o = J::array();
        for (std::size_t i = 0; i < T::size(); ++i) o.push_back(std::isfinite(s[i]) ? J(s[i]) : J("not finite"));
        return o;
    }
    static double total(const J& s) { return num(s["v"][0]) / 4; }
    static T bands(const J& s)
    {
        T o;
        for (std::size_t i = 0; i < T::size(); ++i) o[i] = static_cast<float>(num(s["v"][i % s["v"].size()]) / 4);
        return o;
    }
    static V at(const J& p) { return {p[0].get<double>(), p[1].get<double>(), p[2].get<double>()}; }
    void put(InstanceHandle<T>& i, const J& p)
    {
        V v = at(p) * u;
        i.set_position(units::Meter(v.x), units::Meter(v.y), units::Meter(v.z));
    }
    LightHandle<T> lamp(const J& l)
    {
        units::Meter r(l["r"].get<double>() * u);
        const J& s = l["s"];
        if (l["how"] == "heat") return sc.add_light(std::make_shared<SphereLight<T>>(r, units::Kelvin(s["v"][0].get<double>())));
        if (l["how"] == "rad") return sc.new_sphere_light(r, units::SpectralWattsPerMeterSquaredSteradian<T>(bands(s)));
        if (s["tot"].get<bool>()) return sc.new_sphere_light(r, units::Watt(total(s)));
        return sc.new_sphere_light(r, units::SpectralWatts<T>(bands(s)));
    }
    UnresolvedObjectHandle<T> thing(const J& o)
    {
        std::string k = o["kind"];
        if (k == "fixed" && o["s"]["tot"].get<bool>()) return sc.new_unresolved_object(units::WattsPerMeterSquared(total(o["s"])));
        if (k == "fixed") return sc.new_unresolved_object(units::SpectralWattsPerMeterSquared<T>(bands(o["s"])));
        if (k == "mag") return sc.new_unresolved_object_from_magnitude(num(o["h"]) / 10);
        if (k == "emit" && o["s"]["tot"].get<bool>()) return sc.new_unresolved_emitter(units::Watt(total(o["s"])));
        if (k == "emit") return sc.new_unresolved_emitter(units::SpectralWatts<T>(bands(o["s"])));
        InstanceHandle<T> by = o["lamp"].get<int>() > 0 ? posts.at(o["lamp"].get<std::size_t>() - 1) : *eye;
        float alb = static_cast<float>(num(o["alb"]) / 4);
        if (k == "ball") {
            units::Meter r(num(o["r"]) * u);
            if (alb == 1) return sc.new_unresolved_sphere(r, by);
            return o["one"].get<bool>() ? sc.new_unresolved_sphere(r, by, alb) : sc.new_unresolved_sphere(r, by, T{alb});
        }
        if (alb == 1) return sc.new_unresolved_asteroid(num(o["h"]) / 10, num(o["g"]) / 100, by);
        return o["one"].get<bool>() ? sc.new_unresolved_asteroid(num(o["h"]) / 10, num(o["g"]) / 100, by, alb) : sc.new_unresolved_asteroid(num(o["h"]) / 10, num(o["g"]) / 100, by, T{alb});
    }
    J ask(const J& c)
    {
        auto l = lamps.at(c["i"].get<std::size_t>() - 1).get();
        Interaction<T> here{};
        here.position = at(c["at"]) * u;
        Transform<float> there;
        there.position = at(c["lamp"]) * u;
        J o;
        o["lit"] = told(l->irradiance_at(here.position, there));
        o["face"] = told(l->radiance({0, 0, 0}, {0, 0, 1}));
        RandomSampler<float> dice(c["seed"].get<std::uint32_t>());
        V to = (at(c["lamp"]) - at(c["at"])) * u, w = glm::normalize(to);
        double d = glm::length(to), r = c["r"].get<double>() * u, s2 = r * r / (d * d), narrow = s2 / (1 + std::sqrt(std::max(0., 1 - s2)));
        double mean = 0, widest = 0, unit = 0, off = 0, over = -1, least = 1e300, most = 0, probe = 0;
        V drift{0, 0, 0};
        const int n = 512;
        int none = 0;
        bool same = true;
        for (int i = 0; i < n; ++i) {
            auto s = l->sample_li(here, there, dice);
            if (!s) {
                ++none;
                continue;
            }
            V wi = s->wi, side = wi - w * glm::dot(wi, w);
            double open = glm::dot(wi - w, wi - w) / 2 / narrow;
            mean += open / n, widest = std::max(widest, open), unit = std::max(unit, std::abs(glm::length(wi) - 1));
            drift += side / std::sqrt(s2) / double(n);
            off = std::max(off, std::abs(glm::length(to - wi * double(s->distance)) - r) / d);
            over = std::max(over, s->distance / d - std::sqrt(std::max(0., 1 - s2)));
            least = std::min(least, double(s->pdf)), most = std::max(most, double(s->pdf));
            for (std::size_t k = 0; k < T::size(); ++k) same = same && s->Li[k] == l->radiance({0, 0, 0}, {0, 0, 1})[k];
            probe = std::max(probe, std::abs(l->pdf_li(here, there, s->wi) / double(s->pdf) - 1) * (open < .99 ? 1 : 0));
        }
        o["none"] = none, o["n"] = n;
        double most_open = std::sqrt(std::max(0., 1 - s2));
        Vec3<float> wf = w;
        o["ahead"] = l->pdf_li(here, there, wf);
        V side = std::abs(w.x) < .6 ? V{1, 0, 0} : V{0, 1, 0};
        side = glm::normalize(side - w * glm::dot(side, w));
        double just = std::acos(most_open) * 1.03 + 1e-3;
        Vec3<float> past = w * std::cos(just) + side * std::sin(just);
        o["past"] = l->pdf_li(here, there, past);
        o["behind"] = l->pdf_li(here, there, -wf);
        if (none < n) o.update({{"mean", mean}, {"widest", widest}, {"unit", unit}, {"drift", glm::length(drift)}, {"off", off}, {"over", over}, {"least", least}, {"most", most}, {"same", same}, {"probe", probe}});
        return o;
    }
    J operator()(const J& c)
    {
        std::string op = c["op"];
        if (op == "begin") {
            things.clear(), posts.clear(), eye.reset();
            if (rig) sc.root.delete_subframe(*rig);
            lamps.clear();
            u = std::stod(c["u"].get<std::string>());
            rig = std::make_unique<FrameHandle<T>>(sc.root.new_subframe());
            eye = std::make_unique<InstanceHandle<T>>(rig->new_instance(cam));
            J b = J::array();
            for (auto& i : T::get_all_bins()) b.push_back({i.min_wavelength, i.max_wavelength});
            return {{"bins", b}, {"star", told(visual_magnitude_to_irradiance<T>(0., T{1}))}};
        }
        if (op == "see") {
            put(*eye, c["eye"]);
            if (c["spin"].get<int>()) eye->set_euler_angles(units::Degree(90. * c["spin"].get<int>()), units::Degree(0), units::Degree(0));
            SceneView<T> view(sc, Interval{Time::from_et(0), Time::from_et(0)}, *eye, c["geo"].get<bool>() ? ObservationMode::GEOMETRIC_STATE : ObservationMode::TRUE_STATE);
            J o = J::array();
            for (auto& t : things) o.push_back(told(t.get_irradiance(Time::from_et(0))));
            return {{"res", o}};
        }
        if (op == "ask") return ask(c);
        try {
            if (op == "lamp") {
                lamps.push_back(lamp(c["l"]));
                posts.push_back(rig->new_instance(lamps.back()));
                put(posts.back(), c["l"]["at"]);
            } else if (op == "thing") {
                things.push_back(thing(c["o"]));
                auto i = rig->new_instance(things.back());
                put(i, c["o"]["at"]);
            } else if (op == "set") {
                auto& t = things.at(c["i"].get<std::size_t>() - 1);
                const J& s = c["s"];
                if (auto e = std::dynamic_pointer_cast<UnresolvedEmitter<T>>(t.get())) {
                    if (s["tot"].get<bool>()) e->set_spectral_power(units::Watt(total(s)));
                    else e->set_spectral_power(units::SpectralWatts<T>(bands(s)));
                } else if (s["tot"].get<bool>()) t.set_irradiance(units::WattsPerMeterSquared(total(s)));
                else t.set_irradiance(units::SpectralWattsPerMeterSquared<T>(bands(s)));
            }
        } catch (const std::exception&) {
            return {{"ok", false}};
        }
        return {{"ok", true}};
    }
};
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    vfspice::st.lsk = true;
    spice::lsk_loaded = true;
    World<RGB> three;
    World<Visible8> eight;
    bool fine = false;
    return vf::serve([&](const J& c) -> J {
        if (c["op"] == "reset") return J::object();
        if (c["op"] == "begin") fine = c["fine"].get<bool>();
        return fine ? eight(c) : three(c);
    });
}
