// Replays Render behaviours: renders scenes with huira's Renderer and compares every pixel of every output with the picture the specification drew.
#include "common.hpp"
#include "huira/huira.hpp"
#include "tbb/global_control.h"
#include <set>
using namespace huira;
using S = Scene<RGB>;
static const double F = .01, PITCH = 1e-5, FX = 1000, STOP = 4, PI_ = 3.14159265358979323846;
static const double AREA = PI_ * (F / STOP / 2) * (F / STOP / 2);
static const double UNIT[3] = {1, .5, .25};
static const double PHOTON = 5e-19; // a blue one, joules; pixels that get less than a tenth of one per second may be left out
static const std::uint64_t NONE = static_cast<std::uint64_t>(std::numeric_limits<std::size_t>::max());
struct Glide : PositionCallback {
    Vec3<double> a, b;
    Glide(Vec3<double> from, Vec3<double> to) : a(from), b(to) {}
    void evaluate(const Time& t, const Rotation<double>&, const Vec3<double>&) override { position = a + (b - a) * (t.et() / 10), velocity = {0, 0, 0}; }
};
static std::unique_ptr<S> sc;
static std::map<std::tuple<int, int, int>, CameraModelHandle<RGB>> pool;
static const int RADIUS[] = {0, 2, 6, 0, 1}, BANKS[] = {1, 4, 2, 16, 8};
static const double PSF_N = 22, DISC = 2.4;
static CameraModelHandle<RGB> camera(int w, int h, int blur)
{
    auto it = pool.find({w, h, blur});
    if (it != pool.end()) return it->second;
    auto c = sc->new_camera_model();
    c.configure_sensor_from_pitch(Resolution(w, h), units::Micrometer(PITCH * 1e6), std::nullopt, std::nullopt, std::nullopt);
    c.set_focal_length(units::Millimeter(F * 1e3));
    c.set_fstop(static_cast<float>(STOP));
    c.set_sensor_simulate_noise(false);
    c.delete_psf();
    if (blur == 3) c.set_focus_distance(units::Meter(F * F / STOP / 2 / PITCH / DISC));
    else if (blur) c.set_psf<AiryDisk<RGB>>(units::Meter(F), units::Meter(PITCH), units::Meter(PITCH), units::Meter(F / PSF_N), RADIUS[blur], BANKS[blur]);
    return pool.emplace(std::tuple{w, h, blur}, c).first->second;
}
// the blur of a point at (bx, by) / banks from the centre of pixel 0, worked out from optics alone
struct Kernel {
    int r = 0;
    std::vector<double> cell[3];
    double at(int ch, int x, int y) const { return cell[ch][static_cast<std::size_t>((y + r) * (2 * r + 1) + x + r)]; }
};
static const Kernel& kernel(int blur, int bx, int by)
{
    static std::map<std::tuple<int, int, int>, Kernel> known;
    auto [it, fresh] = known.try_emplace({blur, bx, by});
    Kernel& k = it->second;
    if (!fresh) return k;
    k.r = blur == 3 ? static_cast<int>(std::ceil(DISC)) : RADIUS[blur];
    double ox = static_cast<double>(bx) / BANKS[blur], oy = static_cast<double>(by) / BANKS[blur];
    for (int ch = 0; ch < 3; ++ch) {
        double sum = 0, lambda = static_cast<double>(RGB::get_bin(static_cast<std::size_t>(ch)).center_wavelength);
        for (int y = -k.r; y <= k.r; ++y)
            for (int x = -k.r; x <= k.r; ++x) {
                double v = 0;
                if (blur == 0) v = 1;
                else if (blur == 3) v = std::clamp(DISC - std::hypot(x - ox, y - oy) + .5, 0., 1.);
                else
                    for (int i = 0; i < 16; ++i)
                        for (int j = 0; j < 16; ++j) {
                            double d = std::hypot(x - ox + (i + .5) / 16 - .5, y - oy + (j + .5) / 16 - .5) * PITCH;
                            double a = PI_ * d / (lambda * PSF_N);
                            double e = a < 1e-9 ? 1 : 2 * std::cyl_bessel_j(1, a) / a;
                            v += e * e;
                        }
                k.cell[ch].push_back(v);
                sum += v;
            }
        for (double& v : k.cell[ch]) v /= sum;
    }
    return k;
}
static std::unique_ptr<FrameHandle<RGB>> rig;
static std::unique_ptr<InstanceHandle<RGB>> eye;
static int W, H, BLUR, TURN;
struct Src {
    J c;
    std::unique_ptr<InstanceHandle<RGB>> inst;
    std::unique_ptr<UnresolvedObjectHandle<RGB>> obj;
};
static std::vector<Src> srcs;
static std::vector<GeometryHandle<RGB>> shapes;
static std::vector<PrimitiveHandle<RGB>> bodies;
static std::vector<LightHandle<RGB>> lamps;
static std::map<int, std::unique_ptr<SceneView<RGB>>> views;
static std::map<int, std::unique_ptr<FrameBuffer<RGB>>> bufs;
static std::vector<std::unique_ptr<Renderer<RGB>>> painters;
struct Shot {
    std::map<std::string, std::vector<double>> v;
};
static std::map<int, Shot> shots;
static Vec3<double> spot(double x, double y, double z)
{
    return {(x / 32 - W / 2.) / FX * z, (y / 32 - H / 2.) / FX * z, z};
}
static Rotation<double> turned()
{
    Vec3<double> ax = TURN == 1 ? Vec3<double>{1, 0, 0} : TURN == 2 ? Vec3<double>{0, 1, 0} : Vec3<double>{0, 0, 1};
    return Rotation<double>::from_local_to_parent(ax, units::Radian(TURN ? PI_ / 2 : 0));
}
static double watts(const J& b, const J& dim) { return b.get<double>() * std::pow(10, -dim.get<double>()); }
static RGB light(const J& c)
{
    double b = watts(c["b"], c["dim"]);
    return RGB{static_cast<float>(b * UNIT[0]), static_cast<float>(b * UNIT[1]), static_cast<float>(b * UNIT[2])};
}
static void stars()
{
    std::vector<Star<RGB>> s;
    for (auto& x : srcs)
        if (x.c["kind"] == "star") s.emplace_back(turned() * glm::normalize(spot(x.c["x"], x.c["y"], 1)), light(x.c));
    sc->set_stars(s);
}
static void clean()
{
    views.clear(), bufs.clear(), shots.clear(), srcs.clear();
    eye.reset(), rig.reset();
    for (auto& k : std::vector(sc->root.get()->get_children().begin(), sc->root.get()->get_children().end()))
        if (auto f = std::dynamic_pointer_cast<FrameNode<RGB>>(k)) sc->root.delete_subframe(FrameHandle<RGB>(f));
    for (auto& b : bodies)
        if (b.valid()) sc->delete_primitive(b);
    for (auto& g : shapes)
        if (g.valid()) sc->delete_geometry(g);
    for (auto& l : lamps)
        if (l.valid()) sc->delete_light(l);
    bodies.clear(), shapes.clear(), lamps.clear();
    sc->set_stars({});
}
static void start(const J& c)
{
    clean();
    W = c["w"], H = c["h"], BLUR = c["blur"], TURN = c["turn"];
    rig = std::make_unique<FrameHandle<RGB>>(sc->root.new_subframe());
    rig->set_position(units::Meter(3), units::Meter(-7), units::Meter(11));
    rig->set_rotation(turned());
    auto cam = camera(W, H, BLUR);
    cam.disable_veiling_glare();
    eye = std::make_unique<InstanceHandle<RGB>>(rig->new_instance(cam));
    sc->set_background_radiance(RGB{c["sky"].get<float>()});
    if (c["lamp"].get<bool>()) {
        lamps.push_back(sc->new_sphere_light(units::Meter(.2), units::Watt(100)));
        auto l = rig->new_instance(lamps.back());
        l.set_position(units::Meter(.5), units::Meter(-.4), units::Meter(-1));
    }
}
static void source(const J& c)
{
    Src s{c, nullptr, nullptr};
    if (c["kind"] != "star") {
        s.obj = std::make_unique<UnresolvedObjectHandle<RGB>>(sc->new_unresolved_object(units::SpectralWattsPerMeterSquared<RGB>(light(c))));
        s.inst = std::make_unique<InstanceHandle<RGB>>(rig->new_instance(*s.obj));
        Vec3<double> a = spot(c["x"], c["y"], c["far"]), b = spot(c["tox"], c["toy"], c["far"]);
        if (c["kind"] == "mover") s.inst->get()->template set_custom_position_callback<Glide>(a, b);
        else s.inst->set_position(units::Meter(a.x), units::Meter(a.y), units::Meter(a.z));
    }
    srcs.push_back(std::move(s));
    stars();
}
static void quad(const J& c)
{
    const double in = 32e-3;
    double z = c["d"];
    // a hair inside its pixels, and well beyond the image where it reaches the border
    auto low = [&](const char* k) { double v = c[k]; return v <= 0 ? 32 * (v - 4) : 32 * v + in; };
    auto high = [&](const char* k, int n) { double v = c[k]; return v >= n ? 32 * (v + 4) : 32 * v - in; };
    double l = low("x0"), r = high("x1", W), t = low("y0"), u = high("y1", H);
    Vec3<double> p[4] = {spot(l, t, z), spot(r, t, z), spot(r, u, z), spot(l, u, z)};
    VertexBuffer<RGB> vb(4);
    for (std::size_t k = 0; k < 4; ++k) vb[k].position = Vec3<float>(p[k]), vb[k].normal = Vec3<float>{0, 0, -1};
    auto m = sc->add_mesh({0, 2, 1, 0, 3, 2}, vb);
    shapes.push_back(m);
    bodies.push_back(sc->add_primitive(m));
    rig->new_instance(bodies.back());
}
template <typename F_>
static void each(FrameBuffer<RGB>& f, F_ go)
{
    if (f.has_depth()) go("depth", f.depth(), 1);
    if (f.has_albedo()) go("albedo", f.albedo(), 3);
    if (f.has_geometry_ids()) go("ids", f.geometry_ids(), 1);
    if (f.has_camera_normals()) go("camera normals", f.camera_normals(), 3);
    if (f.has_world_normals()) go("world normals", f.world_normals(), 3);
    if (f.has_received_direct_power()) go("direct", f.received_direct_power(), 3);
    if (f.has_received_indirect_power()) go("indirect", f.received_indirect_power(), 3);
    if (f.has_received_power()) go("power", f.received_power(), 3);
    if (f.has_sensor_response()) go("response", f.sensor_response(), 3);
}
static double part(float v, int) { return static_cast<double>(v); }
static double part(std::uint64_t v, int) { return static_cast<double>(v); }
static double part(const RGB& v, int k) { return static_cast<double>(v[static_cast<std::size_t>(k)]); }
static double part(const Vec3<float>& v, int k) { return static_cast<double>(v[k]); }
static Shot shot(FrameBuffer<RGB>& f)
{
    Shot s;
    each(f, [&](const char* n, auto& im, int ch) {
        auto& o = s.v[n];
        for (int y = 0; y < f.height(); ++y)
            for (int x = 0; x < f.width(); ++x)
                for (int k = 0; k < ch; ++k) o.push_back(part(im(x, y), k));
    });
    return s;
}
static bool alike(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static std::string differ(const Shot& a, const Shot& b)
{
    for (auto& [n, v] : a.v) {
        auto it = b.v.find(n);
        if (it == b.v.end()) continue;
        for (std::size_t i = 0; i < v.size(); ++i)
            if (!alike(v[i], it->second[i])) {
                std::size_t ch = v.size() / static_cast<std::size_t>(W * H), p = i / ch;
                std::ostringstream o;
                o << n << " of pixel (" << p % static_cast<std::size_t>(W) << ", " << p / static_cast<std::size_t>(W) << ") is " << it->second[i] << ", was " << v[i];
                return o.str();
            }
    }
    return "";
}
static std::string check(FrameBuffer<RGB>& f, const J& want)
{
    const J& pic = want["pic"];
    std::ostringstream o;
    std::set<std::string> outs;
    for (auto& x : want["outs"]) outs.insert(x);
    Shot s = shot(f);
    for (auto& [n, v] : s.v)
        if (!outs.count(n)) return n + " is enabled";
    if (s.v.size() != outs.size()) return "an output is gone";
    auto own = [&](int x, int y) { return pic["owner"][static_cast<std::size_t>(y)][static_cast<std::size_t>(x)].get<int>(); };
    auto at = [&](const char* n, int x, int y, int k, int ch) { return s.v[n][static_cast<std::size_t>((y * W + x) * ch + k)]; };
    std::vector<double> exp(static_cast<std::size_t>(W * H * 3), 0), floor_(exp.size(), 0);
    std::vector<char> known(static_cast<std::size_t>(W * H), 1);
    double sky = pic["sky"], top[3] = {0, 0, 0};
    for (int y = 0; y < H; ++y)
        for (int x = 0; x < W; ++x) {
            int w = own(x, y);
            bool rim = false;
            for (int j = std::max(0, y - 1); j <= std::min(H - 1, y + 1); ++j)
                for (int i = std::max(0, x - 1); i <= std::min(W - 1, x + 1); ++i) rim |= own(i, j) != w;
            auto where = [&] { std::ostringstream q; q << " of pixel (" << x << ", " << y << ")"; return q.str(); };
            double cx = (x + .5 - W / 2.) / FX, cy = (y + .5 - H / 2.) / FX, len2 = 1 + cx * cx + cy * cy;
            if (outs.count("depth")) {
                double d = at("depth", x, y, 0, 1);
                if (w == 0 ? !std::isinf(d) : !(std::abs(d / (pic["depth"][static_cast<std::size_t>(w - 1)].get<double>() * std::sqrt(len2)) - 1) < 2e-4)) return o << "depth" << where() << " is " << d << " over " << w, o.str();
            }
            if (outs.count("ids") && !(w && rim)) {
                if ((f.geometry_ids()(x, y) == NONE) != (w == 0)) return "geometry id" + where() + (w ? " is none" : " is set");
            }
            for (int k = 0; k < 3; ++k) {
                if (outs.count("albedo")) {
                    double a = at("albedo", x, y, k, 3);
                    if (w == 0 ? a != 0 : !(a > 0 && a <= 1.0001)) return o << "albedo" << where() << " is " << a, o.str();
                }
                if (outs.count("camera normals")) {
                    double a = at("camera normals", x, y, k, 3);
                    if (!(std::abs(a - (w && k == 2 ? -1 : 0)) < 1e-4)) return o << "camera normal" << where() << " is " << a << " along " << k, o.str();
                }
                if (outs.count("world normals")) {
                    double a = at("world normals", x, y, k, 3);
                    if (!(std::abs(a - (w ? pic["facing"][static_cast<std::size_t>(k)].get<double>() : 0.)) < 1e-4)) return o << "world normal" << where() << " is " << a << " along " << k, o.str();
                }
                double bright = sky * AREA / (FX * FX) / (len2 * len2);
                for (const char* n : {"direct", "indirect"})
                    if (outs.count(n)) {
                        double a = at(n, x, y, k, 3);
                        if (!(a >= 0)) return o << n << " power" << where() << " is " << a, o.str();
                        double e = w == 0 && n[0] == 'd' ? bright : 0;
                        if (w == 0 ? !(std::abs(a - e) <= 1e-3 * e) : n[0] == 'd' && !rim && !pic["lamp"].get<bool>() && a != 0) return o << n << " power" << where() << " is " << a << ", expected " << e, o.str();
                    }
                std::size_t i = static_cast<std::size_t>((y * W + x) * 3 + k);
                if (outs.count("direct") && outs.count("indirect")) exp[i] = at("direct", x, y, k, 3) + at("indirect", x, y, k, 3);
                else exp[i] = w ? 0 : bright, known[static_cast<std::size_t>(y * W + x)] = w == 0;
                top[k] = std::max(top[k], exp[i]);
            }
        }
    if (!outs.count("power")) return "";
    // add the sources
    double slack[3] = {0, 0, 0}, faint[3] = {0, 0, 0};
    for (auto& st : pic["stamps"]) {
        const Kernel& kr = kernel(BLUR, st[2], st[3]);
        double cx = (st[5].get<double>() / 32 - W / 2.) / FX, cy = (st[6].get<double>() / 32 - H / 2.) / FX;
        double area = AREA / std::sqrt(1 + cx * cx + cy * cy);
        for (int ch = 0; ch < 3; ++ch) {
            double p = watts(st[4], st[7]) * UNIT[ch] * area, peak = 0;
            for (int y = -kr.r; y <= kr.r; ++y)
                for (int x = -kr.r; x <= kr.r; ++x) {
                    int px = st[0].get<int>() + x, py = st[1].get<int>() + y;
                    peak = std::max(peak, kr.at(ch, x, y));
                    if (px >= 0 && px < W && py >= 0 && py < H) exp[static_cast<std::size_t>((py * W + px) * 3 + ch)] += p * kr.at(ch, x, y);
                }
            slack[ch] = std::max(slack[ch], p * peak * 2e-3), faint[ch] += kr.r > 1 ? .3 * PHOTON : 0;
        }
    }
    std::vector<char> line(known.size(), 0);
    for (auto& t : pic["trails"]) {
        int n = t["axis"] == "x" ? W : H, cross = t["cross"];
        for (int i = 0; i < n; ++i)
            if (cross >= 0 && cross < (n == W && t["axis"] == "x" ? H : W)) line[static_cast<std::size_t>(t["axis"] == "x" ? cross * W + i : i * W + cross)] = 1;
    }
    double glare = pic["glare"].get<double>() / 8;
    if (glare > 0) {
        double mean[3] = {0, 0, 0};
        for (std::size_t i = 0; i < exp.size(); ++i) mean[i % 3] += exp[i] / (W * H);
        for (auto& t : pic["trails"]) {
            double sum = 0;
            for (auto& x : t["share"]) sum += x.get<double>();
            for (int k = 0; k < 3; ++k) mean[k] += t["b"].get<double>() * UNIT[k] * AREA * sum / t["len"].get<double>() / (W * H), slack[k] += t["b"].get<double>() * UNIT[k] * AREA * .2 / (W * H);
        }
        for (std::size_t i = 0; i < exp.size(); ++i) exp[i] = exp[i] * (1 - glare) + glare * mean[i % 3];
    }
    for (std::size_t i = 0; i < exp.size(); ++i) {
        std::size_t p = i / 3, k = i % 3;
        double a = s.v["power"][i];
        int x = static_cast<int>(p) % W, y = static_cast<int>(p) / W;
        double tol = 1e-3 * exp[i] + slack[k] + faint[k] + 1e-6 * top[k] + 1e-24;
        if (line[p] ? !(a >= exp[i] - tol) : known[p] ? !(std::abs(a - exp[i]) <= tol) : !(a >= exp[i] * (1 - 1e-3) - slack[k] - faint[k]))
            return o << "power of pixel (" << x << ", " << y << ") channel " << k << " is " << a << ", expected " << exp[i] << " +- " << tol << (known[p] ? "" : " at least"), o.str();
    }
    for (auto& t : pic["trails"]) {
        bool across = t["axis"] == "x";
        int n = across ? W : H, cross = t["cross"];
        if (cross < 0 || cross >= (across ? H : W)) continue;
        double len = t["len"].get<double>(), tol = 3 * 32 / len + 2e-3;
        for (std::size_t k = 0; k < 3; ++k) {
            double got = 0, e = 0, full = t["b"].get<double>() * UNIT[k] * AREA * (1 - glare);
            for (int i = 0; i < n; ++i) {
                std::size_t p = static_cast<std::size_t>(across ? cross * W + i : i * W + cross);
                double a = (s.v["power"][p * 3 + k] - exp[p * 3 + k]) / full;
                got += a, e += t["share"][static_cast<std::size_t>(i)].get<double>() / len;
                if (!known[p]) return "";
                if (!(std::abs(got - e) <= tol) || a > 2.2 * 32 / len) return o << "moving source: " << got << " of its light up to pixel " << i << ", expected " << e << "; " << a << " in this pixel", o.str();
            }
        }
    }
    if (outs.count("response")) {
        // what the camera reads out of this power
        FrameBuffer<RGB> g = camera(W, H, BLUR).make_frame_buffer();
        g.enable_sensor_response();
        g.received_power() = f.received_power();
        camera(W, H, BLUR).get()->readout(g, units::Second(10));
        for (int y = 0; y < H; ++y)
            for (int x = 0; x < W; ++x)
                for (std::size_t k = 0; k < 3; ++k)
                    if (f.sensor_response()(x, y)[k] != g.sensor_response()(x, y)[k]) return o << "response of pixel (" << x << ", " << y << ") is " << f.sensor_response()(x, y)[k] << ", not the read-out of its power", o.str();
    }
    return "";
}
static void smear(FrameBuffer<RGB>& f, int seed)
{
    int n = seed;
    auto junk = [&] { n = (n * 1103 + 12345) & 0xffff; return static_cast<float>(n % 1000) - 300.f; };
    each(f, [&](const char*, auto& im, int) {
        for (int y = 0; y < f.height(); ++y)
            for (int x = 0; x < f.width(); ++x) {
                using P = std::decay_t<decltype(im(0, 0))>;
                if constexpr (std::is_same_v<P, std::uint64_t>) im(x, y) = static_cast<std::uint64_t>(n++);
                else if constexpr (std::is_same_v<P, float>) im(x, y) = std::abs(junk()) / 100;
                else if constexpr (std::is_same_v<P, RGB>) im(x, y) = RGB{junk(), junk(), junk()};
                else im(x, y) = Vec3<float>{junk(), junk(), junk()};
            }
    });
}
static J render(const J& c)
{
    int v = c["v"], b = c["b"], id = c["id"];
    auto& p = *painters[c["painter"].get<std::size_t>()];
    p.set_samples_per_pixel(c["spp"]);
    p.set_max_bounces(c["bounces"]);
    if (!views[v]) return "skipped";
    if (!bufs[b]) return "skipped";
    FrameBuffer<RGB>& f = *bufs[b];
    const J& want = c["want"];
    Shot before;
    if (want["refused"].get<bool>()) before = shot(f);
    {
        tbb::global_control limit(tbb::global_control::max_allowed_parallelism, c["threads"].get<std::size_t>());
        try {
            p.render(*views[v], f);
        } catch (const std::exception& e) {
            if (!want["refused"].get<bool>()) return std::string("exception ") + e.what();
            std::string d = differ(before, shot(f));
            return d == "" ? J("refused") : J("refused, but " + d);
        }
    }
    if (want["refused"].get<bool>()) return "accepted a buffer of another size";
    std::string bad = check(f, want);
    if (bad != "") return bad;
    Shot now = shot(f);
    if (want["like"].get<int>()) bad = differ(shots[want["like"]], now);
    else shots[id] = now;
    return bad == "" ? J("ok") : J("not the same as before: " + bad);
}
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    vfspice::st.lsk = true;
    spice::lsk_loaded = true;
    sc = std::make_unique<S>();
    for (int i = 0; i < 2; ++i) painters.push_back(std::make_unique<Renderer<RGB>>());
    int rc = vf::serve([&](const J& c) -> J {
        std::string op = c["op"];
        if (op == "reset") clean();
        else if (op == "start") start(c);
        else if (op == "source") source(c);
        else if (op == "drop") {
            std::size_t k = c["k"].get<std::size_t>();
            if (k <= srcs.size()) {
                auto& s = srcs[k - 1];
                if (s.inst) rig->delete_instance(*s.inst), sc->delete_unresolved_object(*s.obj);
                srcs.erase(srcs.begin() + static_cast<std::ptrdiff_t>(k - 1));
                stars();
            }
        } else if (op == "quad") quad(c);
        else if (op == "glare") {
            if (c["k"].get<int>()) camera(W, H, BLUR).set_veiling_glare(c["k"].get<float>() / 8);
            else camera(W, H, BLUR).disable_veiling_glare();
        } else if (op == "look") {
            views[c["v"]] = std::make_unique<SceneView<RGB>>(*sc, Interval{Time::from_et(0), Time::from_et(10)}, *eye, ObservationMode::TRUE_STATE, c["n"].get<std::size_t>());
        } else if (op == "buffer") {
            auto f = std::make_unique<FrameBuffer<RGB>>(camera(c["w"], c["h"], c["w"] == W && c["h"] == H ? BLUR : 0).make_frame_buffer());
            for (std::string o : c["outs"]) {
                if (o == "depth") f->enable_depth();
                if (o == "albedo") f->enable_albedo();
                if (o == "ids") f->enable_geometry_ids();
                if (o == "camera normals") f->enable_camera_normals();
                if (o == "world normals") f->enable_world_normals();
                if (o == "direct") f->enable_received_direct_power();
                if (o == "indirect") f->enable_received_indirect_power();
                if (o == "power") f->enable_received_power();
                if (o == "response") f->enable_sensor_response();
            }
            bufs[c["b"]] = std::move(f);
        } else if (op == "smear") {
            if (bufs[c["b"]]) smear(*bufs[c["b"]], c["seed"]);
        } else if (op == "render") return {{"r", render(c)}};
        return J::object();
    });
    clean();
    pool.clear();
    painters.clear();
    sc.reset();
    return rc;
}
