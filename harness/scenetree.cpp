// Replays SceneTree behaviours into two real scenes; every handle ever issued is kept and used after every step.
#include "common.hpp"
#include <any>
#include <map>
#include <regex>
#include <variant>
#include "huira/huira.hpp"
using namespace huira;
using S = Scene<RGB>;
using G = GeometryHandle<RGB>;
using L = LightHandle<RGB>;
using U = UnresolvedObjectHandle<RGB>;
using C = CameraModelHandle<RGB>;
using P = PrimitiveHandle<RGB>;
using M = ModelHandle<RGB>;
using F = FrameHandle<RGB>;
using I = InstanceHandle<RGB>;
using Any = std::variant<G, L, U, C, P, M, F, I>;

static std::unique_ptr<S> sc[3];
static std::vector<Any> h;               // handle of object i at i - 1
static std::vector<std::any> kept;       // the objects themselves are kept alive for every other handle
static std::map<std::pair<std::string, std::uint64_t>, int> number;
static std::string dir;

static F frame(int i) { return std::get<F>(h.at(static_cast<std::size_t>(i - 1))); }

static const char* family(const Any& a)
{
    static const char* names[] = {"geom", "light", "unres", "camera", "prim", "model", "node", "node"};
    return names[a.index()];
}
template <class H> static void add(H x)
{
    h.emplace_back(x);
    int n = static_cast<int>(h.size());
    number[{family(h.back()), x.id()}] = n;
    if (n % 2) kept.emplace_back(x.get());
    if constexpr (std::is_same_v<H, F> || std::is_same_v<H, I>)
        if (n > 2) x.set_position(units::Meter(n), units::Meter(0), units::Meter(0));
}
static int of(const std::string& fam, std::uint64_t id)
{
    auto it = number.find({fam, id});
    return it == number.end() ? -1 : it->second;
}
template <class X> static int asset_number(const X* p)
{
    if constexpr (std::is_same_v<X, Light<RGB>>) return of("light", p->id());
    else if constexpr (std::is_same_v<X, UnresolvedObject<RGB>>) return of("unres", p->id());
    else if constexpr (std::is_same_v<X, CameraModel<RGB>>) return of("camera", p->id());
    else if constexpr (std::is_same_v<X, Primitive<RGB>>) return of("prim", p->id());
    else return of("model", p->id());
}
// every way of using a handle must be refused
template <class X> static bool refused(X f)
{
    try { f(); } catch (const std::exception&) { return true; }
    return false;
}
template <class H> static std::string uses_of_dead(const H& x)
{
    if (x.valid()) return "valid";
    if (!refused([&] { x.get(); })) return "get";
    if (!refused([&] { x.name(); })) return "name";
    if (!refused([&] { x.id(); })) return "id";
    if (!refused([&] { x.type(); })) return "type";
    S& s = *sc[1];
    if constexpr (std::is_same_v<H, F> || std::is_same_v<H, I>) {
        using units::Meter, units::MetersPerSecond, units::Radian, units::RadiansPerSecond, units::Degree;
        RadiansPerSecond w(1);
        if (!refused([&] { x.set_position(Meter(1), Meter(1), Meter(1)); })) return "set_position";
        if (!refused([&] { x.get_static_position(); })) return "get_static_position";
        if (!refused([&] { x.set_velocity(MetersPerSecond(1), MetersPerSecond(1), MetersPerSecond(1)); })) return "set_velocity";
        if (!refused([&] { x.get_static_velocity(); })) return "get_static_velocity";
        if (!refused([&] { x.set_rotation(Rotation<double>()); })) return "set_rotation";
        if (!refused([&] { x.set_rotation_local_to_parent(Vec3<double>(0, 0, 1), Degree(3)); })) return "set_rotation_local_to_parent";
        if (!refused([&] { x.set_rotation_parent_to_local(Vec3<double>(0, 0, 1), Degree(3)); })) return "set_rotation_parent_to_local";
        if (!refused([&] { x.set_euler_angles(Radian(1), Radian(1), Radian(1)); })) return "set_euler_angles";
        if (!refused([&] { x.get_static_rotation(); })) return "get_static_rotation";
        if (!refused([&] { x.set_angular_velocity(w, w, w); })) return "set_angular_velocity";
        if (!refused([&] { x.set_body_angular_velocity(w, w, w); })) return "set_body_angular_velocity";
        if (!refused([&] { x.get_static_angular_velocity(); })) return "get_static_angular_velocity";
        if (!refused([&] { x.set_scale(2); })) return "set_scale";
        if (!refused([&] { x.get_static_scale(); })) return "get_static_scale";
        if (!refused([&] { x.set_spice_origin("X"); })) return "set_spice_origin";
        if (!refused([&] { x.set_spice("X", "Y"); })) return "set_spice";
        if (!refused([&] { x.get_parent(); })) return "get_parent";
        if (!refused([&] { x.template get_parent_as<FrameNode<RGB>>(); })) return "get_parent_as";
    } else if (!refused([&] { s.set_name(x, "n"); })) return "set_name";
    if constexpr (std::is_same_v<H, F>) {
        if (!refused([&] { x.new_subframe(); })) return "new_subframe";
        if (!refused([&] { x.new_spice_subframe("A", "B"); })) return "new_spice_subframe";
    }
    if constexpr (std::is_same_v<H, G>) {
        if (!refused([&] { s.add_primitive(x); })) return "add_primitive";
        if (!refused([&] { s.delete_geometry(x); })) return "delete_geometry";
    }
    if constexpr (std::is_same_v<H, L>)
        if (!refused([&] { s.delete_light(x); })) return "delete_light";
    if constexpr (std::is_same_v<H, U>) {
        if (!refused([&] { x.set_irradiance(units::WattsPerMeterSquared(1)); })) return "set_irradiance";
        if (!refused([&] { s.delete_unresolved_object(x); })) return "delete_unresolved_object";
    }
    if constexpr (std::is_same_v<H, P>)
        if (!refused([&] { s.delete_primitive(x); })) return "delete_primitive";
    if constexpr (std::is_same_v<H, M>) {
        if (!refused([&] { x.print_graph(); })) return "print_graph";
        if (!refused([&] { s.delete_model(x); })) return "delete_model";
    }
    if constexpr (std::is_same_v<H, C>) {
        if (!refused([&] { x.set_focal_length(units::Millimeter(50)); })) return "set_focal_length";
        if (!refused([&] { s.delete_camera_model(x); })) return "delete_camera_model";
    }
    return "";
}
static J see(int i)
{
    return std::visit([&](auto& x) -> J {
        using H = std::decay_t<decltype(x)>;
        H copy = x;
        if (copy.valid() != x.valid()) return J{"a copy differs"};
        if (!x.valid()) {
            std::string bad = uses_of_dead(copy) + uses_of_dead(x);
            return bad.empty() ? J{"dead"} : J{"dead but usable", bad};
        }
        try {
            if (copy.get() != x.get() || of(family(h[static_cast<std::size_t>(i - 1)]), copy.id()) != i) return J{"another object"};
            std::string fam = family(h[static_cast<std::size_t>(i - 1)]);
            copy.name(), copy.type();
            if constexpr (std::is_same_v<H, P>) return J{"prim", of("geom", x.get()->geometry->id())};
            if constexpr (std::is_same_v<H, M>) {
                std::ostringstream o;
                auto* b = std::cout.rdbuf(o.rdbuf());
                try { x.print_graph(); } catch (...) { std::cout.rdbuf(b); throw; }
                std::cout.rdbuf(b);
                static const std::regex inst("Instance\\[");
                std::string s = o.str();
                return J{"model", std::distance(std::sregex_iterator(s.begin(), s.end(), inst), std::sregex_iterator())};
            }
            if constexpr (std::is_same_v<H, F> || std::is_same_v<H, I>) {
                int par = 0;
                if (i > 2) {
                    if (x.get_static_position() != Vec3<double>(i, 0, 0)) return J{"moved"};
                    par = of("node", x.get_parent().id());
                    if (frame(par).get() != x.template get_parent_as<FrameNode<RGB>>().get()) return J{"another parent"};
                }
                if constexpr (std::is_same_v<H, F>) {
                    J kids = J::array();
                    for (auto& k : x.get()->get_children()) kids.push_back(of("node", k->id()));
                    return J{"frame", par, kids};
                } else
                    return J{"inst", par, std::visit([](auto* p) { return asset_number(p); }, x.get()->asset())};
            }
            return J{fam};
        } catch (const std::exception& e) {
            return J{"live but refused", e.what()};
        }
    }, h[static_cast<std::size_t>(i - 1)]);
}
static J handle(const J& c)
{
    std::string op = c["op"];
    if (op == "reset") {
        h.clear(), kept.clear(), number.clear();
        for (int i : {1, 2}) sc[i] = std::make_unique<S>();
        for (int i : {1, 2}) add(F{sc[i]->root.get()});
        return J{{"r", "ok"}};
    }
    int si = c["s"], i = c["i"], j = c["j"];
    S* s = si ? sc[si].get() : nullptr;
    J r = "ok";
    std::size_t before = h.size();
    try {
        if (op == "light") add(s->new_sphere_light(units::Meter(1), units::Watt(1)));
        else if (op == "unres") add(s->new_unresolved_object(units::WattsPerMeterSquared(1)));
        else if (op == "camera") add(s->new_camera_model());
        else if (op == "geom") add(G{s->add_ellipsoid(units::Meter(1), units::Meter(1), units::Meter(1))});
        else if (op == "prim") add(s->add_primitive(std::get<G>(h[static_cast<std::size_t>(i - 1)])));
        else if (op == "load") {
            std::string mesh = "mesh" + std::to_string(h.size()), f = dir + "/m" + std::to_string(getpid()) + ".obj";
            std::ofstream(f) << "o " << mesh << "\nv 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n";
            M m = s->load_model(f, "model" + std::to_string(h.size()));
            add(s->get_geometry(mesh));
            add(s->get_primitive(mesh));
            add(m);
        } else if (op == "frame") add(frame(i).new_subframe());
        else if (op == "inst")
            std::visit([&](auto& a) {
                if constexpr (requires { frame(i).new_instance(a); }) add(frame(i).new_instance(a));
                else throw std::logic_error("not placeable");
            }, h[static_cast<std::size_t>(j - 1)]);
        else if (op == "delasset")
            std::visit([&](auto& a) {
                using H = std::decay_t<decltype(a)>;
                if constexpr (std::is_same_v<H, G>) s->delete_geometry(a);
                if constexpr (std::is_same_v<H, P>) s->delete_primitive(a);
                if constexpr (std::is_same_v<H, L>) s->delete_light(a);
                if constexpr (std::is_same_v<H, U>) s->delete_unresolved_object(a);
                if constexpr (std::is_same_v<H, C>) s->delete_camera_model(a);
                if constexpr (std::is_same_v<H, M>) s->delete_model(a);
            }, h[static_cast<std::size_t>(i - 1)]);
        else if (op == "delnode") {
            auto& x = h[static_cast<std::size_t>(j - 1)];
            if (std::holds_alternative<F>(x)) frame(i).delete_subframe(std::get<F>(x));
            else frame(i).delete_instance(std::get<I>(x));
        } else if (op == "end") sc[si].reset();
        else throw std::logic_error("no such operation");
    } catch (const std::exception& e) {
        r = "error";
        if (h.size() != before) r = "error after adding";
    }
    J o = J::array();
    for (int n = 1; n <= static_cast<int>(h.size()); ++n) o.push_back(see(n));
    return {{"r", r}, {"o", o}};
}
int main()
{
    dir = getenv("VF_DIR");
    std::cerr.rdbuf(nullptr);
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    int rc = vf::serve(handle);
    h.clear(), kept.clear(), sc[1].reset(), sc[2].reset();
    return rc;
}
