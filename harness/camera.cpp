// Replays Camera behaviours into a camera of a scene; "see" compares it with a new one set up at once.
#include "common.hpp"
#include "huira/huira.hpp"
using namespace huira;
using Cam = CameraModel<RGB>;
using Handle_ = CameraModelHandle<RGB>;
static const float NaN = std::numeric_limits<float>::quiet_NaN();
struct Spy : Cam {
    static Aperture<RGB>& aperture(Cam& c) { return *(c.*(&Spy::aperture_)); }
    static SensorModel<RGB>& sensor(Cam& c) { return *(c.*(&Spy::sensor_)); }
};
static double num(const J& c, const char* k) { return c[k].get<double>(); }
static void lens(Handle_& h, const std::string& kind, const J& k)
{
    auto f = [&](int i) { return k[static_cast<std::size_t>(i)].get<double>() / 16; };
    if (kind == "brown") h.set_brown_conrady_distortion(BrownCoefficients(f(0), f(1), f(2), f(3), f(4)));
    else if (kind == "opencv") h.set_opencv_distortion(OpenCVCoefficients(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11)));
    else if (kind == "owen") h.set_owen_distortion(OwenCoefficients(f(0), f(1), f(2), f(3), f(4), f(5)));
}
static void own_blur(Handle_& h, const J& c)
{
    h.set_psf<AiryDisk<RGB>>(units::Meter(num(c, "f") * 1e-6), units::Meter(5e-6), units::Meter(5e-6), units::Meter(num(c, "d") * 1e-6), c["r"].get<int>(), c["b"].get<int>());
}
static std::optional<float> centre(const J& c, const char* k)
{
    int v = c[k];
    if (v == -1) return std::nullopt;
    return static_cast<float>(v) / 2;
}
// everything that can be asked of a camera
static std::vector<double> probe(Cam& c)
{
    std::vector<double> v;
    auto add = [&](double x) { v.push_back(x); };
    Resolution r = c.resolution();
    add(r.x), add(r.y), add(c.focal_length().to_si()), add(c.fstop());
    add(Spy::sensor(c).pixel_pitch().x * 1e3), add(Spy::sensor(c).pixel_pitch().y * 1e3);
    float z = c.is_blender_convention() ? -1.f : 1.f;
    add(z);
    for (float x : {0.f, .05f, -.1f, .2f})
        for (float y : {0.f, .1f, -.15f}) {
            Pixel p = c.project_point(Vec3<float>{x, y, z});
            add(p.x), add(p.y);
        }
    double sx = 1;
    if (r.x > 0 && r.y > 0) {
        for (float fx : {0.f, .3f, .5f, .97f})
            for (float fy : {0.f, .4f, .99f}) {
                Pixel p{fx * static_cast<float>(r.x), fy * static_cast<float>(r.y)};
                Vec3<float> d = c.cast_ray(p).direction();
                add(d.x), add(d.y), add(d.z);
            }
        for (int x : {0, r.x / 2, r.x - 1})
            for (int y : {0, r.y / 3, r.y - 1}) add(c.pixel_radiance_to_power(x, y) / c.pixel_radiance_to_power(r.x / 2, r.y / 2)), sx = c.pixel_radiance_to_power(r.x / 2, r.y / 2);
        add(std::log(sx));
        for (float e : {-.02f, .02f, .5f, .98f, 1.02f})
            for (float g : {-.02f, .02f, .98f, 1.02f}) {
                // just in and out of the corners of the undistorted field
                Pixel a = c.project_point(Vec3<float>{0, 0, z}), b = c.project_point(Vec3<float>{1e-3f, 1e-3f, z});
                float kx = (b.x - a.x) / 1e-3f, ky = (b.y - a.y) / 1e-3f;
                Vec3<float> q{(e * static_cast<float>(r.x) - a.x) / kx, (g * static_cast<float>(r.y) - a.y) / ky, z};
                add(c.in_fov(q) ? 1 : 0);
            }
    }
    add(c.get_projected_aperture_area(Vec3<float>{0, 0, 1}) * 1e3);
    add(c.has_psf());
    if (c.has_psf()) {
        int R = c.get_psf_radius();
        add(R);
        for (float u : {0.f, .3f, .8f})
            for (int x = 0; x <= 2 * R; ++x)
                for (int y = 0; y <= 2 * R; ++y) {
                    const RGB& k = c.get_psf_kernel(u, 1 - u)(x, y);
                    add(k[0]), add(k[2]);
                }
    }
    double d = c.get_focus_distance().to_si();
    add(std::isinf(d) ? -7 : d);
    Aperture<RGB>& ap = Spy::aperture(c);
    add(ap.has_defocus());
    if (ap.has_defocus()) {
        add(ap.get_defocus_radius()), add(ap.get_defocus_half_extent());
        const Image<float>& k = ap.get_defocus_kernel(.3f, .6f);
        add(k.width());
        for (int x = 0; x < k.width() && x < 40; ++x) add(k(x, k.height() / 2)), add(k(k.width() / 2, x));
    }
    if (std::isfinite(d) && r.x > 1 && r.y > 1) {
        RandomSampler<float> rs(7);
        c.enable_depth_of_field(true);
        for (int i = 0; i < 3; ++i) {
            Ray<RGB> y = c.cast_ray(Pixel{.5f, .5f}, rs);
            for (int k = 0; k < 3; ++k) add(y.origin()[k] * 1e2), add(y.direction()[k]);
        }
        c.enable_depth_of_field(false);
    }
    return v;
}
static int run()
{
    std::unique_ptr<Scene<RGB>> sc;
    std::optional<Handle_> cam;
    auto handle = [&](const J& c) -> J {
        std::string op = c["op"];
        J r = J::object();
        if (op == "reset") {
            cam.reset();
            sc.reset();
            sc = std::make_unique<Scene<RGB>>();
            cam = sc->new_camera_model();
            return r;
        }
        Cam& m = *cam->get();
        bool bad = c.value("bad", false);
        auto set = [&](auto&& f) {
            r["r"] = vf::guarded([&]() -> J {
                f();
                return "ok";
            });
        };
        auto res = [&]() { return Resolution{c["w"].get<int>(), c["h"].get<int>()}; };
        if (op == "focal") set([&] { cam->set_focal_length(bad ? units::Millimeter(NaN) : units::Millimeter(num(c, "f") / 1e3)); });
        else if (op == "sensor") set([&] {
            cam->configure_sensor_from_pitch(res(), units::Micrometer(num(c, "px")), units::Micrometer(num(c, "py")), bad ? NaN : centre(c, "cx"), centre(c, "cy"));
        });
        else if (op == "size") set([&] {
            std::optional<units::Millimeter> h;
            if (num(c, "px") != num(c, "py")) h = units::Millimeter(num(c, "py") * num(c, "h") / 1e3);
            cam->configure_sensor_from_size(res(), units::Millimeter(num(c, "px") * num(c, "w") / 1e3), h, centre(c, "cx"), bad ? NaN : centre(c, "cy"));
        });
        else if (op == "matrix") set([&] {
            cam->set_intrinsics(c["fx"].get<float>(), c["fy"].get<float>(), bad ? NaN : c["cx"].get<float>() / 2, c["cy"].get<float>() / 2, res(), units::Millimeter(num(c, "f") / 1e3));
        });
        else if (op == "lens") set([&] { lens(*cam, c["kind"], c["k"]); });
        else if (op == "unlens") set([&] { cam->delete_distortion(); });
        else if (op == "flip") set([&] { cam->use_blender_convention(c["on"].get<bool>()); });
        else if (op == "stop") set([&] { cam->set_fstop(c["n"].get<float>()); });
        else if (op == "aperture") set([&] { cam->set_aperture<CircularAperture<RGB>>(units::Meter(num(c, "d") * 1e-6)); });
        else if (op == "focus") set([&] { cam->set_focus_distance(bad ? units::Meter(NaN) : units::Meter(num(c, "mm") / 1e3)); });
        else if (op == "diopters") set([&] { cam->set_diopters(units::Diopter(num(c, "n"))); });
        else if (op == "blur") set([&] { cam->use_aperture_psf(c["r"].get<int>(), c["b"].get<int>()); });
        else if (op == "ownblur") set([&] { own_blur(*cam, c); });
        else if (op == "unblur") set([&] { cam->delete_psf(); });
        else if (op == "project") {
            float t = c["t"].get<float>(), g = m.is_blender_convention() ? -1.f : 1.f;
            Vec3<float> p{c["a"].get<float>() / 8 * t, g * c["b"].get<float>() / 8 * t, g * t};
            Pixel q = m.project_point(p), o = m.try_project_point(p), b = m.try_project_point(-1.f * p), h = cam->project_point(p);
            r["r"] = {{"p", {q.x, q.y}}, {"in", m.in_fov(p)}, {"tried", std::isnan(o.x) ? J() : J{o.x, o.y}}, {"behind", std::isnan(b.x) && std::isnan(b.y) && !m.in_fov(-1.f * p)},
                      {"h", {h.x, h.y}}};
        } else if (op == "cast") {
            Pixel p{c["x"].get<float>() / 8, c["y"].get<float>() / 8};
            Ray<RGB> y = m.cast_ray(p);
            Vec3<float> d = y.direction();
            J back = J::array();
            for (float t : {.01f, 1.f, 3e5f}) {
                Pixel q = m.project_point(d * t);
                back.push_back(J{q.x, q.y});
            }
            r["r"] = {{"d", {d.x, d.y, d.z}}, {"o", {y.origin().x, y.origin().y, y.origin().z}}, {"back", back}, {"in", m.in_fov(d)}};
        } else if (op == "see") {
            std::vector<double> mine = probe(m);
            Scene<RGB> s2;
            Handle_ f = s2.new_camera_model();
            const J& s = c["s"];
            double u = s["unit"];
            f.configure_sensor_from_pitch(Resolution{s["w"].get<int>(), s["h"].get<int>()}, units::Micrometer(num(s, "px") / u), units::Micrometer(num(s, "py") / u), s["cx"].get<float>() / 2,
                                          s["cy"].get<float>() / 2);
            f.set_focal_length(units::Millimeter(num(s, "f") / 1e3));
            f.use_blender_convention(s["flip"].get<bool>());
            if (s["lens"]["kind"] != "none") lens(f, s["lens"]["kind"], s["lens"]["k"]);
            f.set_aperture<CircularAperture<RGB>>(units::Meter(num(s, "dn") / num(s, "dd") * 1e-6));
            if (s["focus"][1] != 0) f.set_focus_distance(units::Meter(s["focus"][0].get<double>() / s["focus"][1].get<double>() / 1e3));
            if (s["blur"]["kind"] == "aperture") f.use_aperture_psf(s["blur"]["r"].get<int>(), s["blur"]["b"].get<int>());
            else if (s["blur"]["kind"] == "own") own_blur(f, s["blur"]);
            std::vector<double> theirs = probe(*f.get());
            double worst = 0;
            std::size_t at = 0;
            for (std::size_t i = 0; i < std::min(mine.size(), theirs.size()); ++i) {
                double e = std::abs(mine[i] - theirs[i]) / (1 + std::abs(theirs[i]));
                if (std::isnan(mine[i]) && std::isnan(theirs[i])) e = 0;
                if (!(e <= worst)) worst = std::isnan(e) ? 1e9 : e, at = i;
            }
            r["r"] = {{"n", mine.size()}, {"fresh", theirs.size()}, {"worst", worst}, {"at", at}, {"got", at < mine.size() ? mine[at] : 0}, {"want", at < theirs.size() ? theirs[at] : 0}};
        }
        return r;
    };
    return vf::serve([&](const J& c) -> J {
        try {
            return handle(c);
        } catch (const std::exception& e) {
            return J{{"threw", e.what()}, {"r", "threw"}};
        }
    });
}
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    return run();
}
