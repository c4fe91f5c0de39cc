// Replays Surfaces behaviours: builds meshes and ellipsoids, places them, and reports what rays meet.
#include "common.hpp"
#include "huira/huira.hpp"
using namespace huira;
using S = Scene<RGB>;
static std::unique_ptr<S> sc;
static std::unique_ptr<FrameHandle<RGB>> rig;
static std::unique_ptr<InstanceHandle<RGB>> eye;
static std::unique_ptr<CameraModelHandle<RGB>> cam;
static std::vector<GeometryHandle<RGB>> shapes;
static std::vector<PrimitiveHandle<RGB>> prims;
static std::vector<InstanceHandle<RGB>> bodies;
static std::unique_ptr<SceneView<RGB>> view;
static Vec3<float> v3(const J& j) { return {j[0].get<float>(), j[1].get<float>(), j[2].get<float>()}; }
static J js(const Vec3<float>& v)
{
    J o = J::array();
    for (int k = 0; k < 3; ++k) o.push_back(std::isfinite(v[k]) ? J(std::abs(v[k]) < 1e-30f ? 0.f : v[k]) : J("not finite"));
    return o;
}
static void clean()
{
    view.reset(), eye.reset();
    bodies.clear();
    if (rig) sc->root.delete_subframe(*rig);
    rig.reset();
    for (auto& p : prims)
        if (p.valid()) sc->delete_primitive(p);
    for (auto& g : shapes)
        if (g.valid()) sc->delete_geometry(g);
    prims.clear(), shapes.clear();
    rig = std::make_unique<FrameHandle<RGB>>(sc->root.new_subframe());
    eye = std::make_unique<InstanceHandle<RGB>>(rig->new_instance(*cam));
}
static void pose(InstanceHandle<RGB>& i, const J& c)
{
    const double q = 1.57079632679489661923;
    auto turn = [&](Vec3<double> ax, int k) { return Rotation<double>::from_local_to_parent(ax, units::Radian(q * k)); };
    i.set_rotation(turn({0, 0, 1}, c["r"][2]) * turn({0, 1, 0}, c["r"][1]) * turn({1, 0, 0}, c["r"][0]));
    i.set_scale(c["s"][0].get<double>(), c["s"][1].get<double>(), c["s"][2].get<double>());
    i.set_position(units::Meter(c["p"][0].get<double>()), units::Meter(c["p"][1].get<double>()), units::Meter(c["p"][2].get<double>()));
}
static J told(const HitRecord& h, const Interaction<RGB>& i)
{
    auto f = [](float v) { return std::isfinite(v) ? J(v) : J("not finite"); };
    return {{"t", f(h.t)}, {"tri", h.prim_id}, {"at", js(i.position)}, {"geo", js(i.normal_g)}, {"shade", js(i.normal_s)}, {"tan", js(i.tangent)}, {"bit", js(i.bitangent)},
            {"uv", J::array({f(i.uv.x), f(i.uv.y)})}, {"hue", J::array({f(i.vertex_albedo[0]), f(i.vertex_albedo[1]), f(i.vertex_albedo[2])})}, {"wo", js(i.wo)}};
}
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    vfspice::st.lsk = true;
    spice::lsk_loaded = true;
    sc = std::make_unique<S>();
    cam = std::make_unique<CameraModelHandle<RGB>>(sc->new_camera_model());
    cam->configure_sensor_from_pitch(Resolution(4, 4), units::Micrometer(10), std::nullopt, std::nullopt, std::nullopt);
    int rc = vf::serve([&](const J& c) -> J {
        std::string op = c["op"];
        if (op == "reset") clean();
        else if (op == "mesh") {
            VertexBuffer<RGB> vb;
            for (auto& v : c["v"]) {
                Vertex<RGB> x;
                x.position = v3(v["at"]), x.normal = v3(v["n"]), x.uv = {v["uv"][0].get<float>(), v["uv"][1].get<float>()};
                x.albedo = RGB{v["hue"].get<float>(), 2 * v["hue"].get<float>(), 1.f};
                vb.push_back(x);
            }
            IndexBuffer ib;
            for (auto& i : c["idx"]) ib.push_back(i.get<std::uint32_t>());
            TangentBuffer tb;
            for (auto& t : c["tan"]) tb.push_back({v3(t), Vec3<float>{0, 0, 0}});
            try {
                auto m = tb.empty() && !c["plain"].get<bool>() ? sc->add_mesh(ib, vb) : sc->add_mesh(ib, vb, tb);
                shapes.push_back(m);
                prims.push_back(sc->add_primitive(m));
                auto* p = dynamic_cast<Mesh<RGB>*>(prims.back().get()->geometry.get());
                if (p->index_buffer() != ib || p->vertex_buffer() != vb || p->index_count() != ib.size()) return {{"ok", true}, {"odd", "buffers changed"}};
                return {{"ok", true}, {"triangles", p->triangle_count()}, {"vertices", p->vertex_count()}, {"tangents", p->has_tangents()}};
            } catch (const std::runtime_error&) {
                return {{"ok", false}};
            }
        } else if (op == "round") {
            auto g = sc->add_ellipsoid(units::Meter(c["radii"][0].get<double>()), units::Meter(c["radii"][1].get<double>()), units::Meter(c["radii"][2].get<double>()));
            shapes.push_back(g);
            prims.push_back(sc->add_primitive(g));
        } else if (op == "place") {
            std::size_t g = c["g"].get<std::size_t>();
            if (g <= shapes.size()) bodies.push_back(rig->new_instance(prims[g - 1])), pose(bodies.back(), c);
        } else if (op == "move") {
            std::size_t b = c["b"].get<std::size_t>();
            if (b <= bodies.size()) pose(bodies[b - 1], c);
        } else if (op == "look") {
            view = std::make_unique<SceneView<RGB>>(*sc, Interval{Time::from_et(0), Time::from_et(1)}, *eye, ObservationMode::TRUE_STATE, c["n"].get<std::size_t>());
        } else if (op == "ray") {
            if (!view) return {{"hit", false}};
            Ray<RGB> r(v3(c["o"]), v3(c["d"]));
            HitRecord h = view->intersect(r, c["time"].get<float>() / 4);
            std::vector<HitRecord> hs = view->intersect(std::vector<Ray<RGB>>{r, r}, c["time"].get<float>() / 4);
            if (hs.size() != 2 || hs[1].hit() != h.hit() || (h.hit() && !(std::abs(hs[1].t - h.t) < 2e-3f * (1 + h.t)))) return {{"hit", h.hit()}, {"odd", "many rays at once meet something else: " + std::to_string(h.t) + " " + std::to_string(h.inst_id) + " and " + std::to_string(hs[0].t) + ", " + std::to_string(hs[1].t)}};
            if (!h.hit()) return {{"hit", false}};
            J o = told(h, view->resolve_hit(r, h));
            Interaction<RGB> one = view->resolve_hit(r, hs[1]), many = view->resolve_hits({r, r}, hs)[1];
            if (!(glm::length(one.position - many.position) < 1e-4f) || !(glm::length(one.normal_s - many.normal_s) < 1e-3f)) o["odd"] = "many hits at once are resolved differently";
            o["hit"] = true;
            return o;
        }
        return J::object();
    });
    view.reset(), bodies.clear(), prims.clear(), shapes.clear(), eye.reset(), rig.reset(), cam.reset();
    sc.reset();
    return rc;
}
