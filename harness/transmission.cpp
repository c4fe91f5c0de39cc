// Replays Transmission behaviours: puts bodies along a line and asks what is left of light.
#include "common.hpp"
#include "huira/huira.hpp"
using namespace huira;
using S = Scene<RGB>;
static std::unique_ptr<S> sc;
static std::unique_ptr<FrameHandle<RGB>> rig;
static std::unique_ptr<InstanceHandle<RGB>> eye;
static std::unique_ptr<CameraModelHandle<RGB>> cam;
static std::unique_ptr<BSDFHandle<RGB>> bsdf;
static std::unique_ptr<PhaseFunctionHandle<RGB>> phase;
static std::map<std::string, MaterialHandle<RGB>> paints;
static std::map<std::string, MediumHandle<RGB>> fills;
static std::map<int, LightHandle<RGB>> lamps;
static std::vector<GeometryHandle<RGB>> shapes;
static std::vector<std::optional<PrimitiveHandle<RGB>>> prims, frozen;
static std::unique_ptr<SceneView<RGB>> view;
struct Glide : PositionCallback {
    Vec3<double> a, b;
    Glide(Vec3<double> from, Vec3<double> to) : a(from), b(to) {}
    void evaluate(const Time& t, const Rotation<double>&, const Vec3<double>&) override { position = a + (b - a) * (t.et() / 4), velocity = {0, 0, 0}; }
};
static void clean()
{
    view.reset(), eye.reset();
    if (rig) sc->root.delete_subframe(*rig);
    rig.reset();
    for (auto& p : prims)
        if (p && p->valid()) sc->delete_primitive(*p);
    for (auto& g : shapes)
        if (g.valid()) sc->delete_geometry(g);
    prims.clear(), shapes.clear(), frozen.clear();
    rig = std::make_unique<FrameHandle<RGB>>(sc->root.new_subframe());
    eye = std::make_unique<InstanceHandle<RGB>>(rig->new_instance(*cam));
}
static MaterialHandle<RGB>& paint(const J& b)
{
    std::string k = b["open"].dump() + b["pass"].dump();
    auto i = paints.find(k);
    if (i == paints.end()) {
        i = paints.emplace(k, sc->new_material(*bsdf)).first;
        RGB t;
        for (std::size_t j = 0; j < 3; ++j) t[j] = b["pass"][j].get<int>() < 0 ? 0.f : std::ldexp(1.f, -b["pass"][j].get<int>());
        i->second.set_transmission_factor(t);
        i->second.set_alpha_factor(b["open"].get<bool>() ? 0.f : 1.f);
    }
    return i->second;
}
static MediumHandle<RGB>& fill(const J& b)
{
    std::string k = b["abs"].dump() + b["ext"].dump();
    auto i = fills.find(k);
    if (i == fills.end()) {
        RGB a, s;
        for (std::size_t j = 0; j < 3; ++j) a[j] = b["abs"][j].get<float>() / 40, s[j] = (b["ext"][j].get<float>() - b["abs"][j].get<float>()) / 40;
        i = fills.emplace(k, sc->new_medium(sc->new_constant_density_field(a, s), *phase)).first;
    }
    return i->second;
}
static GeometryHandle<RGB> shape(const J& b)
{
    float lo = b["lo"].get<float>() / 2, hi = b["hi"].get<float>() / 2;
    if (b["kind"] == "ball") return sc->add_ellipsoid(units::Meter(b["r"].get<double>() / 2), units::Meter(b["r"].get<double>() / 2), units::Meter(b["r"].get<double>() / 2));
    float h = (hi - lo) / 2;
    VertexBuffer<RGB> vb;
    IndexBuffer ib;
    auto face = [&](Vec3<float> o, Vec3<float> e, Vec3<float> f) {
        std::uint32_t k = static_cast<std::uint32_t>(vb.size());
        for (int i = 0; i < 4; ++i) {
            Vertex<RGB> v;
            v.position = o + (i & 1 ? e : -e) + (i & 2 ? f : -f);
            v.normal = glm::normalize(glm::cross(e, f));
            v.uv = {float(i & 1), float(i >> 1)};
            vb.push_back(v);
        }
        for (std::uint32_t i : {0u, 1u, 3u, 0u, 3u, 2u}) ib.push_back(k + i);
    };
    const float w = 30;
    Vec3<float> x{h, 0, 0}, y{0, w, 0}, z{0, 0, w};
    if (b["kind"] == "sheet") face({0, 0, 0}, y, z);
    else face(x, y, z), face(-x, z, y), face(y, z, x), face(-y, x, z), face(z, x, y), face(-z, y, x);
    return sc->add_mesh(ib, vb);
}
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    vfspice::st.lsk = true;
    spice::lsk_loaded = true;
    sc = std::make_unique<S>();
    cam = std::make_unique<CameraModelHandle<RGB>>(sc->new_camera_model());
    cam->configure_sensor_from_pitch(Resolution(4, 4), units::Micrometer(10), std::nullopt, std::nullopt, std::nullopt);
    bsdf = std::make_unique<BSDFHandle<RGB>>(sc->new_bsdf_lambertian());
    phase = std::make_unique<PhaseFunctionHandle<RGB>>(sc->new_isotropic_phase_function());
    RandomSampler<float> dice(7);
    int rc = vf::serve([&](const J& c) -> J {
        std::string op = c["op"];
        if (op == "reset") clean();
        else if (op == "put") {
            const J& b = c["b"];
            auto start = [&](double dx) { return Vec3<double>{(b["lo"].get<double>() + b["hi"].get<double>()) / 4 + dx / 2, b["y"].get<double>() / 2, b["z"].get<double>() / 2}; };
            std::optional<InstanceHandle<RGB>> i;
            if (b["kind"] == "lamp") {
                int r = b["hi"].get<int>() - b["lo"].get<int>();
                auto l = lamps.find(r);
                if (l == lamps.end()) l = lamps.emplace(r, sc->new_sphere_light(units::Meter(r / 4.), units::Watt(10))).first;
                prims.emplace_back();
                i = rig->new_instance(l->second);
            } else {
                shapes.push_back(shape(b));
                prims.push_back(b["ext"].empty() ? sc->add_primitive(shapes.back(), paint(b)) : sc->add_primitive(shapes.back(), paint(b), fill(b)));
                i = rig->new_instance(*prims.back());
            }
            int mv = b["mv"].get<int>();
            if (mv) i->get()->template set_custom_position_callback<Glide>(start(0), start(4 * mv));
            else {
                Vec3<double> p = start(0);
                i->set_position(units::Meter(p.x), units::Meter(p.y), units::Meter(p.z));
            }
        } else if (op == "freeze") {
            view = std::make_unique<SceneView<RGB>>(*sc, Interval{Time::from_et(0), Time::from_et(4)}, *eye, c["geo"].get<bool>() ? ObservationMode::GEOMETRIC_STATE : ObservationMode::TRUE_STATE, c["n"].get<std::size_t>());
            frozen = prims;
        } else if (op == "ask") {
            if (!view) return {{"left", {1, 1, 1}}};
            MediumStack<RGB> in;
            for (auto& i : c["in"]) {
                auto& p = frozen.at(i.get<std::size_t>() - 1);
                if (p) in.toggle(p->get().get());
            }
            Ray<RGB> r({c["x"].get<float>() / 2, c["y"].get<float>() / 2, c["z"].get<float>() / 2}, {c["dir"].get<float>(), 0, 0});
            RGB t = view->evaluate_transmittance(r, c["len"].get<float>() / 2, in, dice, c["q"].get<float>() / 4);
            J o = J::array();
            for (std::size_t k = 0; k < 3; ++k) o.push_back(std::isfinite(t[k]) ? J(t[k]) : J("not finite"));
            return {{"left", o}};
        }
        return J::object();
    });
    view.reset(), prims.clear(), shapes.clear(), eye.reset(), rig.reset(), cam.reset();
    paints.clear(), fills.clear(), lamps.clear(), bsdf.reset(), phase.reset(), frozen.clear();
    sc.reset();
    return rc;
}
