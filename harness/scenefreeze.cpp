// Replays SceneFreeze behaviours into a real scene; every view held is looked at from six sides after every step.
#include "common.hpp"
#include <map>
#include <variant>
#include "huira/huira.hpp"
using namespace huira;
using S = Scene<RGB>;
using F = FrameHandle<RGB>;
using I = InstanceHandle<RGB>;
using Asset = std::variant<PrimitiveHandle<RGB>, LightHandle<RGB>, ModelHandle<RGB>, CameraModelHandle<RGB>>;
static const double Q = 1.5707963267948966;
static std::unique_ptr<S> sc;
static std::map<std::string, Asset> assets;
static std::map<std::string, GeometryHandle<RGB>> geoms;
static std::vector<std::variant<F, I>> nd;
struct Held {
    std::unique_ptr<SceneView<RGB>> v;
    int n = 0;
};
static std::map<int, Held> views;
static std::string model_file;
static unsigned turn;

static Vec3<double> vec(const J& j) { return Vec3<double>{j[0].get<double>(), j[1].get<double>(), j[2].get<double>()}; }

// a closed box, its faces split around an off-centre point so that no ray through the centre meets an edge
static void box(float a, float b, float c, std::vector<Vec3<float>>& pos, std::vector<Vec3<float>>& nor, std::vector<std::uint32_t>& idx)
{
    Vec3<float> h{a, b, c};
    for (int ax = 0; ax < 3; ++ax)
        for (int s = -1; s <= 1; s += 2) {
            int u = (ax + 1) % 3, v = (ax + 2) % 3;
            auto at = [&](float x, float y) {
                Vec3<float> p{};
                p[ax] = static_cast<float>(s) * h[ax], p[u] = x * h[u], p[v] = y * h[v];
                Vec3<float> n{};
                n[ax] = static_cast<float>(s);
                pos.push_back(p), nor.push_back(n);
            };
            auto k = static_cast<std::uint32_t>(pos.size());
            at(-1, -1), at(1, -1), at(1, 1), at(-1, 1), at(.3f, .2f);
            for (std::uint32_t q = 0; q < 4; ++q) {
                idx.push_back(k + q), idx.push_back(k + (q + 1) % 4), idx.push_back(k + 4);
                if (s < 0) std::swap(idx[idx.size() - 2], idx[idx.size() - 3]);
            }
        }
}
static std::string base64(const std::string& in)
{
    static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    for (std::size_t i = 0; i < in.size(); i += 3) {
        unsigned v = 0, n = 0;
        for (std::size_t k = 0; k < 3; ++k) v = v << 8 | (i + k < in.size() ? (++n, static_cast<unsigned char>(in[i + k])) : 0u);
        for (unsigned k = 0; k < 4; ++k) o += k <= n ? t[v >> (18 - 6 * k) & 63] : '=';
    }
    return o;
}
// one box, placed twice: at the root, and turned and moved below it
static void write_model(const std::string& path)
{
    std::vector<Vec3<float>> p, n;
    std::vector<std::uint32_t> i;
    box(1, 3, 2, p, n, i);
    std::string bin(reinterpret_cast<const char*>(p.data()), p.size() * 12);
    bin.append(reinterpret_cast<const char*>(n.data()), n.size() * 12);
    bin.append(reinterpret_cast<const char*>(i.data()), i.size() * 4);
    auto view = [&](std::size_t off, std::size_t len) { return J{{"buffer", 0}, {"byteOffset", off}, {"byteLength", len}}; };
    double r = std::sqrt(.5);
    J g = {{"asset", {{"version", "2.0"}}},
           {"scene", 0},
           {"scenes", {{{"nodes", {0}}}}},
           {"nodes", {{{"name", "body"}, {"mesh", 0}, {"children", {1}}},
                      {{"name", "wing"}, {"mesh", 0}, {"translation", {20, 0, 0}}, {"rotation", {0, 0, r, r}}}}},
           {"meshes", {{{"primitives", {{{"attributes", {{"POSITION", 0}, {"NORMAL", 1}}}, {"indices", 2}}}}}}},
           {"buffers", {{{"byteLength", bin.size()}, {"uri", "data:application/octet-stream;base64," + base64(bin)}}}},
           {"bufferViews", {view(0, p.size() * 12), view(p.size() * 12, p.size() * 12), view(p.size() * 24, i.size() * 4)}},
           {"accessors", {{{"bufferView", 0}, {"componentType", 5126}, {"count", p.size()}, {"type", "VEC3"}, {"min", {-1, -3, -2}}, {"max", {1, 3, 2}}},
                          {{"bufferView", 1}, {"componentType", 5126}, {"count", p.size()}, {"type", "VEC3"}},
                          {{"bufferView", 2}, {"componentType", 5125}, {"count", i.size()}, {"type", "SCALAR"}}}}};
    std::ofstream(path) << g.dump();
}
static PrimitiveHandle<RGB> body(const std::string& g) { return sc->add_primitive(geoms.at(g)); }
static GeometryHandle<RGB> shape(const std::string& g)
{
    using units::Meter;
    if (g == "gS") return sc->add_ellipsoid(Meter(1), Meter(1), Meter(1));
    if (g == "gE") return sc->add_ellipsoid(Meter(2), Meter(2), Meter(4));
    std::vector<Vec3<float>> p, n;
    std::vector<std::uint32_t> i;
    box(2, 4, 3, p, n, i);
    VertexBuffer<RGB> vb(p.size());
    for (std::size_t k = 0; k < p.size(); ++k) vb[k].position = p[k], vb[k].normal = n[k];
    return sc->add_mesh(i, vb);
}
static CameraModelHandle<RGB> camera(const std::string& c) // slow to make
{
    auto it = assets.find(c);
    if (it == assets.end()) it = assets.emplace(c, sc->new_camera_model()).first;
    return std::get<CameraModelHandle<RGB>>(it->second);
}
static void fresh()
{
    views.clear(), nd.clear();
    if (!sc) {
        assets.clear(), geoms.clear();
        sc = std::make_unique<S>();
    }
    for (auto& k : std::vector(sc->root.get()->get_children().begin(), sc->root.get()->get_children().end())) {
        if (auto f = std::dynamic_pointer_cast<FrameNode<RGB>>(k)) sc->root.delete_subframe(F(f));
        else sc->root.delete_instance(I(std::dynamic_pointer_cast<Instance<RGB>>(k)));
    }
    std::erase_if(assets, [](auto& a) { return std::visit([](auto& h) { return !h.valid(); }, a.second); });
    std::erase_if(geoms, [](auto& g) { return !g.second.valid(); });
    for (const char* g : {"gS", "gE", "gB"})
        if (!geoms.count(g)) geoms.emplace(g, shape(g));
    for (auto [a, g] : {std::pair{"E1", "gS"}, std::pair{"E2", "gE"}, std::pair{"E3", "gE"}, std::pair{"B", "gB"}})
        if (!assets.count(a)) assets.emplace(a, body(g));
    if (!assets.count("L")) assets.emplace("L", sc->new_sphere_light(units::Meter(3), units::Watt(5)));
    if (!assets.count("M")) assets.emplace("M", sc->load_model(model_file));
    for (const char* c : {"C", "D"})
        if (assets.count(c)) camera(c).set_sensor_rotation(units::Radian(0));
    nd.emplace_back(sc->root);
}
static J look(const Held& h)
{
    J out = J::array();
    const double len = h.n > 1 ? h.n - 1 : 1;
    if (std::abs(h.v->duration().to_si() - len) > 1e-6 || std::abs(h.v->get_end_time().et() - h.v->get_start_time().et() - len) > 1e-6) return "another interval";
    for (int t = 0; t < h.n; ++t) {
        std::vector<float> times = h.n > 1 ? std::vector<float>{static_cast<float>(t) / static_cast<float>(h.n - 1)} : std::vector<float>{0.f, .5f, 1.f};
        J all;
        for (float time : times) {
            J shot = J::array();
            std::vector<Ray<RGB>> rays;
            std::vector<HitRecord> lone;
            for (unsigned mask = 1; mask <= 3; ++mask)
                for (int a = 0; a < 3; ++a)
                    for (int d = -1; d <= 1; d += 2)
                        for (int x = -40; x <= 40; x += 20)
                            for (int y = -40; y <= 40; y += 20) {
                                Vec3<float> o{}, dir{};
                                o[a] = static_cast<float>(-1000 * d), dir[a] = static_cast<float>(d);
                                o[a == 0 ? 1 : 0] = static_cast<float>(x), o[a == 2 ? 1 : 2] = static_cast<float>(y);
                                Ray<RGB> ray(o, dir);
                                HitRecord hit = h.v->intersect(ray, time, mask == 3 ? 0xFFFFFFFFu : mask);
                                if (mask == 1) rays.push_back(ray), lone.push_back(hit);
                                if (!hit.hit()) continue;
                                float r = std::round(hit.t);
                                shot.push_back({mask, a + 1, d, x, y, std::abs(hit.t - r) < .05f ? r : hit.t});
                                if (mask == 1) {
                                    Interaction<RGB> is = h.v->resolve_hit(ray, hit);
                                    Vec3<float> at = o + hit.t * dir;
                                    auto bad = [&](const Vec3<float>& g, const Vec3<float>& w, float tol) { return !(glm::length(g - w) < tol); };
                                    if (bad(is.position, at, .05f)) shot.push_back({"resolved to", is.position.x, is.position.y, is.position.z});
                                    if (bad(is.normal_g, -dir, .02f)) shot.push_back({"geometric normal", is.normal_g.x, is.normal_g.y, is.normal_g.z});
                                    if (bad(is.normal_s, -dir, .02f)) shot.push_back({"shading normal", is.normal_s.x, is.normal_s.y, is.normal_s.z});
                                    if (bad(is.wo, -dir, .001f)) shot.push_back("wo");
                                }
                            }
            if (turn++ % 3 == 0) { // all at once
                auto many = h.v->intersect(rays, time);
                for (std::size_t k = 0; k < rays.size(); ++k) {
                    auto whole = h.v->intersect(rays[k], time);
                    if (many[k].hit() != whole.hit() || (whole.hit() && (many[k].t != whole.t || many[k].inst_id != whole.inst_id))) shot.push_back("all at once");
                }
                auto isects = h.v->resolve_hits(rays, lone);
                for (std::size_t k = 0; k < rays.size(); ++k)
                    if (lone[k].hit() && glm::length(isects[k].position - h.v->resolve_hit(rays[k], lone[k]).position) > 1e-3f) shot.push_back("resolved all at once");
            }
            if (all.is_null()) all = shot;
            else if (all != shot) all = J{"the time of a ray matters", all, shot};
        }
        out.push_back(all);
    }
    return out;
}
static void set(int i, const std::string& what, const J& x)
{
    std::visit([&](auto& h) {
        using units::Meter, units::MetersPerSecond, units::RadiansPerSecond;
        auto v = vec(x.size() == 3 ? x : J{0, 0, 0});
        if (what == "p") h.set_position(Meter(v.x), Meter(v.y), Meter(v.z));
        else if (what == "m") {
            int a = x[0];
            Vec3<double> axis{};
            axis[std::abs(a) - 1] = a < 0 ? -1 : 1;
            h.set_rotation_local_to_parent(axis, units::Radian(Q * x[1].get<double>()));
        } else if (what == "s") h.set_scale(v.x, v.y, v.z);
        else if (what == "v") h.set_velocity(MetersPerSecond(v.x), MetersPerSecond(v.y), MetersPerSecond(v.z));
        else h.set_angular_velocity(RadiansPerSecond(Q * v.x), RadiansPerSecond(Q * v.y), RadiansPerSecond(Q * v.z));
    }, nd.at(static_cast<std::size_t>(i - 1)));
}
static J handle(const J& c)
{
    std::string op = c["op"];
    if (op == "reset") {
        fresh();
        return J{{"r", "ok"}};
    }
    int i = c["i"];
    J r = "ok";
    const J &x = c["x"], &y = c["y"];
    try {
        if (op == "place") {
            F par = std::get<F>(nd.at(static_cast<std::size_t>(i - 1)));
            if (x == "") {
                F f = par.new_subframe();
                nd.emplace_back(f);
            } else
                std::visit([&](auto a) {
                    I n = par.new_instance(a);
                    nd.emplace_back(n);
                }, x == "C" || x == "D" ? Asset(camera(x)) : assets.at(x));
            set(static_cast<int>(nd.size()), "p", y);
        } else if (op == "set") set(i, x, y);
        else if (op == "remove") {
            F par = std::get<F>(nd.at(x.get<std::size_t>() - 1));
            auto& n = nd.at(static_cast<std::size_t>(i - 1));
            if (std::holds_alternative<F>(n)) par.delete_subframe(std::get<F>(n));
            else par.delete_instance(std::get<I>(n));
        } else if (op == "drop") {
            bool there = false;
            std::string a = x;
            if (auto g = geoms.find(a); g != geoms.end()) {
                if ((there = g->second.valid())) sc->delete_geometry(g->second);
            } else
                std::visit([&](auto h) {
                    using H = std::decay_t<decltype(h)>;
                    if (!(there = h.valid())) return;
                    if constexpr (std::is_same_v<H, PrimitiveHandle<RGB>>) sc->delete_primitive(h);
                    if constexpr (std::is_same_v<H, LightHandle<RGB>>) sc->delete_light(h);
                    if constexpr (std::is_same_v<H, ModelHandle<RGB>>) sc->delete_model(h);
                    if constexpr (std::is_same_v<H, CameraModelHandle<RGB>>) sc->delete_camera_model(h);
                }, a == "C" || a == "D" ? Asset(camera(a)) : assets.at(a));
            if (!there) r = "none";
        } else if (op == "sensor") camera(x).set_sensor_rotation(units::Radian(Q * y.get<double>()));
        else if (op == "view") {
            int n = y;
            Interval when = Interval::from_start(Time::from_et(100. + turn % 50), units::Second(n > 1 ? n - 1 : 1));
            auto mode = std::array{ObservationMode::TRUE_STATE, ObservationMode::GEOMETRIC_STATE, ObservationMode::ABERRATED_STATE}[turn++ % 3];
            if (!sc) throw std::runtime_error("no scene");
            auto v = std::make_unique<SceneView<RGB>>(*sc, when, std::get<I>(nd.at(static_cast<std::size_t>(i - 1))), mode, static_cast<std::size_t>(n));
            views[x].v = std::move(v), views[x].n = n;
        } else if (op == "forget") {
            if (!views.erase(x)) r = "none";
        } else if (op == "end") sc.reset();
        else throw std::logic_error("no such operation");
    } catch (const std::logic_error&) {
        throw;
    } catch (const std::exception&) {
        r = "error";
    }
    if (c.value("quiet", false)) return {{"r", r}};
    J o = J::array();
    for (int v = 1; v <= c.value("slots", 1); ++v) o.push_back(views.count(v) ? look(views[v]) : J::array());
    return {{"r", r}, {"o", o}};
}
int main(int, char** argv)
{
    std::cerr.rdbuf(nullptr);
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    model_file = fs::temp_directory_path() / ("scenefreeze" + std::to_string(getpid()) + ".gltf");
    write_model(model_file);
    int rc = vf::serve(handle);
    fs::remove(model_file);
    views.clear(), nd.clear(), assets.clear(), geoms.clear(), sc.reset();
    return rc;
}
