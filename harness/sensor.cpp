// Replays Sensor behaviours into the sensors of cameras and their frame buffers.
#include "common.hpp"
#include "huira/huira.hpp"
using namespace huira;
static const float NaN = std::numeric_limits<float>::quiet_NaN();
static const float Inf = std::numeric_limits<float>::infinity();
static float wrong_value(const std::string& w)
{
    return w == "nan" ? NaN : w == "inf" ? Inf : w == "-inf" ? -Inf : w == "zero" ? 0.f : w == "much" ? 1e6f : w == "-much" ? -1e6f : -1.f;
}
template <typename T>
struct Rig {
    using Cam = CameraModel<T>;
    struct Spy : Cam {
        static SensorModel<T>& sensor(Cam& c) { return *(c.*(&Spy::sensor_)); }
    };
    struct Given : SimpleSensor<T> {
        Given(const SensorConfig<T>& c) { this->config_ = c; }
    };
    Scene<T> scene;
    std::vector<CameraModelHandle<T>> cams;
    std::map<int, std::unique_ptr<FrameBuffer<T>>> bufs;
    T energy = T::photon_energies();

    static T qe_of(const J& v)
    {
        T q{0};
        for (std::size_t k = 0; k < v.size(); ++k) q[k] = v[k].get<float>() / 4;
        return q;
    }
    static SensorConfig<T> config(const J& v)
    {
        SensorConfig<T> c;
        c.resolution = Resolution(2, 2);
        c.quantum_efficiency = qe_of(v["qe"]);
        c.full_well_capacity = v["fwc"];
        c.simulate_noise = v["noise"];
        c.read_noise = v["read"];
        c.dark_current = v["dark"];
        c.bias_level_dn = v["bias"];
        c.bit_depth = v["bits"];
        c.gain = v["gain"].get<float>() / 40;
        c.unity_db = 20 * v["unity"].get<float>();
        return c;
    }
    void start(int n)
    {
        while (static_cast<int>(cams.size()) < n) cams.push_back(scene.new_camera_model());
        bufs.clear();
        for (auto& h : cams) {
            SensorConfig<T> c;
            c.resolution = Resolution(2, 2);
            c.quantum_efficiency = T{1.f};
            c.simulate_noise = false;
            c.gain = 1;
            h.template set_sensor<Given>(c);
        }
    }
    J set(int i, const J& c)
    {
        CameraModelHandle<T>& h = cams[static_cast<std::size_t>(i)];
        std::string what = c["what"], w = c["wrong"];
        const J& v = c["v"];
        bool bad = w != "";
        float x = bad ? wrong_value(w) : 0.f;
        auto value = [&]() { return bad ? x : v.get<float>(); };
        try {
            if (what == "qe") {
                if (c["even"].get<bool>()) h.set_sensor_quantum_efficiency(bad ? static_cast<double>(x) : v[0].get<double>() / 4);
                else {
                    T q = bad ? T{.5f} : qe_of(v);
                    if (bad) q[2] = w == "much" ? 1.5f : x;
                    h.set_sensor_quantum_efficiency(q);
                }
            } else if (what == "fwc") h.set_sensor_full_well_capacity(value());
            else if (what == "noise") h.set_sensor_simulate_noise(v.get<bool>());
            else if (what == "read") h.set_sensor_read_noise(value());
            else if (what == "dark") h.set_sensor_dark_current(value());
            else if (what == "bias") h.set_sensor_bias_level(value());
            else if (what == "bits") h.set_sensor_bit_depth(bad ? (w == "much" ? 200 : static_cast<int>(x)) : v.get<int>());
            else if (what == "gain") h.set_sensor_gain(bad ? x : v.get<float>() / 40);
            else if (what == "unity") h.set_sensor_uinty_db(bad ? x : 20 * v.get<float>());
            else if (what == "db") h.set_sensor_gain_db(bad ? x : 20 * v.get<float>());
        } catch (const std::exception&) {
            return true;
        }
        return false;
    }
    J replace(int i, const J& c)
    {
        cams[static_cast<std::size_t>(i)].template set_sensor<Given>(config(c["v"]));
        return false;
    }
    J settings(int i)
    {
        SensorModel<T>& s = Spy::sensor(*cams[static_cast<std::size_t>(i)].get());
        J qe = J::array();
        for (std::size_t k = 0; k < T::size(); ++k) qe.push_back(s.quantum_efficiency()[k] * 4);
        return {{"qe", qe}, {"fwc", s.full_well_capacity()}, {"noise", s.simulate_noise()}, {"read", s.read_noise()}, {"dark", s.dark_current()},
                {"bias", s.bias_level_dn()}, {"bits", s.bit_depth()}, {"gain", s.gain_adu() * 40}, {"unity", s.unity_db() / 20}, {"db", s.gain_db() / 20}};
    }
    void make(int i, int b, const J& c)
    {
        CameraModelHandle<T>& h = cams[static_cast<std::size_t>(i)];
        h.configure_sensor_from_pitch(Resolution(c["w"].get<int>(), c["h"].get<int>()), units::Micrometer(10), std::nullopt, std::nullopt, std::nullopt);
        bufs[b] = std::make_unique<FrameBuffer<T>>(h.make_frame_buffer());
    }
    FrameBuffer<T>& buffer(int b)
    {
        if (!bufs[b]) {
            J c = {{"w", 2}, {"h", 2}};
            make(0, b, c);
        }
        return *bufs[b];
    }
    T light(const J& px)
    {
        T p{0};
        for (std::size_t k = 0; k < T::size(); ++k) p[k] = (px[k].get<int>() == 16777216 ? 1e25f : px[k].get<float>()) * energy[k];
        return p;
    }
    J seen(int b)
    {
        FrameBuffer<T>& f = buffer(b);
        J p = J::array(), r = J::array();
        for (int y = 0; y < f.received_power().height(); ++y)
            for (int x = 0; x < f.received_power().width(); ++x) {
                J q = J::array();
                for (std::size_t k = 0; k < T::size(); ++k) {
                    float n = f.received_power()(x, y)[k] / energy[k];
                    q.push_back(n > 1e24f ? 16777216. : static_cast<double>(n));
                }
                p.push_back(q);
            }
        for (int y = 0; y < f.sensor_response().height(); ++y)
            for (int x = 0; x < f.sensor_response().width(); ++x) {
                J q = J::array();
                auto add = [&](float v) { q.push_back(std::isfinite(v) ? J(v) : J("not a number")); };
                if constexpr (std::is_same_v<T, RGB>) {
                    for (std::size_t k = 0; k < 3; ++k) add(f.sensor_response()(x, y)[k]);
                } else {
                    add(f.sensor_response()(x, y));
                }
                r.push_back(q);
            }
        return {{"power", p}, {"resp", r}, {"bits", f.has_sensor_response() && f.width() > 0 ? f.sensor_response().sensor_bit_depth() : 0}};
    }
    J step(const J& c, int i, int b)
    {
        std::string op = c["op"];
        J r = J::object();
        if (op == "set") return {{"threw", set(i, c)}, {"o", settings(i)}};
        if (op == "replace") return {{"threw", replace(i, c)}, {"o", settings(i)}};
        if (op == "make") make(i, b, c);
        FrameBuffer<T>& f = buffer(b);
        if (op == "enable") {
            if (c["what"] == "power") f.enable_received_power(c["on"]);
            else f.enable_sensor_response(c["on"]);
        } else if (op == "light" && f.has_received_power()) {
            int k = 0, n = static_cast<int>(c["px"].size());
            for (int y = 0; y < f.height(); ++y)
                for (int x = 0; x < f.width(); ++x) f.received_power()(x, y) = light(c["px"][static_cast<std::size_t>(k++ % n)]);
        } else if (op == "spot" && f.has_received_power()) {
            int k = c["i"].get<int>() % (f.width() * f.height());
            f.received_power()(k % f.width(), k / f.width()) = light(c["px"]);
        } else if (op == "clear") {
            f.clear();
        } else if (op == "readout") {
            cams[static_cast<std::size_t>(i)].get()->readout(f, units::Second(c["t"].get<double>() / 8));
        }
        return {{"o", seen(b)}};
    }
};
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    Rig<RGB> colour;
    Rig<Visible8> mono;
    return vf::serve([&](const J& c) -> J {
        if (c["op"] == "reset") {
            colour.start(2);
            mono.start(1);
            return J::object();
        }
        int s = c.value("s", 0), b = c.value("b", 0);
        return s == 3 || b == 3 ? mono.step(c, 0, 3) : colour.step(c, s == 0 ? 0 : s - 1, b);
    });
}
