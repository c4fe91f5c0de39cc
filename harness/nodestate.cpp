// Replays NodeState behaviours into a scene tree and evaluates every node at several times after every step.
#include "common.hpp"
#include "huira/huira.hpp"
using namespace huira;
using S = Scene<RGB>;
using F = FrameHandle<RGB>;
using I = InstanceHandle<RGB>;
using V = Vec3<double>;
using R = Rotation<double>;
static const double Q = 1.5707963267948966; // a quarter turn
static std::unique_ptr<S> sc;
static std::optional<LightHandle<RGB>> lamp;
struct N {
    std::optional<F> f;
    std::optional<I> i;
};
static std::map<int, N> nd;
static unsigned turn; // alternates between the equivalent ways of saying the same

static V vec(const J& j) { return V{j[0].get<double>(), j[1].get<double>(), j[2].get<double>()}; }
static Mat3<double> mat(const J& j) // rows
{
    Mat3<double> m{};
    for (int r = 0; r < 3; ++r)
        for (int c = 0; c < 3; ++c) m[c][r] = j[static_cast<std::size_t>(r)][static_cast<std::size_t>(c)].get<double>();
    return m;
}
static J out(const V& v) { return J{v.x, v.y, v.z}; }
static J out(const R& r)
{
    J m = J::array();
    V c[3] = {r * V{1, 0, 0}, r * V{0, 1, 0}, r * V{0, 0, 1}};
    for (int i = 0; i < 3; ++i) m.push_back(J{c[0][i], c[1][i], c[2][i]});
    return m;
}
static R about(char axis, double quarters)
{
    return R::from_local_to_parent(axis == 'x' ? V{1, 0, 0} : axis == 'y' ? V{0, 1, 0} : V{0, 0, 1}, units::Radian(Q * quarters));
}
struct PosCb : PositionCallback {
    int n;
    PosCb(int n) : n(n) {}
    void evaluate(const Time& e, const R& rot, const V& rate) override
    {
        double t = e.et();
        if (n == 1) position = {t, -2, t * t}, velocity = {1, 0, 2 * t};
        else position = rot * V{0, 5, 1}, velocity = rate;
    }
};
struct RotCb : RotationCallback {
    int n;
    RotCb(int n) : n(n) {}
    void evaluate(const Time& e, const V& p, const V&) override
    {
        if (n == 1) rotation = about('z', e.et()), angular_velocity = {0, 0, Q};
        else rotation = about(p.z > 1e-6 ? 'x' : 'y', 1), angular_velocity = {0, 0, 0};
    }
};
struct Cb : StateCallback {
    int n;
    Cb(int n) : n(n) {}
    void evaluate(const Time& e) override
    {
        double t = e.et();
        state.scale = {7, 7, 7}; // not its business
        if (n == 2) state.position = {0, t, -3}, state.velocity = {0, 1, 0}, state.rotation = about('x', t), state.angular_velocity = {Q, 0, 0};
        else state.position = {t, 1, 0}, state.velocity = {1, 0, 0}, state.rotation = about('y', t), state.angular_velocity = {0, Q, 0};
    }
};
template <class Fn> static auto on(int i, Fn f)
{
    N& n = nd.at(i);
    return n.f ? f(*n.f) : f(*n.i);
}
static void set(const std::string& op, int i, const J& a, const J& b)
{
    using units::Meter, units::MetersPerSecond, units::RadiansPerSecond;
    unsigned way = turn++;
    on(i, [&](auto& h) {
        auto node = h.get();
        if (op == "position") {
            V p = vec(a);
            if (way % 2) h.set_position(Meter(p.x), Meter(p.y), Meter(p.z));
            else node->set_position(p);
        } else if (op == "velocity") {
            V v = vec(a);
            if (way % 2) h.set_velocity(MetersPerSecond(v.x), MetersPerSecond(v.y), MetersPerSecond(v.z));
            else node->set_velocity(v);
        } else if (op == "rotation") {
            Mat3<double> m = mat(a);
            switch (way % 5) {
            case 0: h.set_rotation_local_to_parent(m); break;
            case 1: h.set_rotation_parent_to_local(glm::transpose(m)); break;
            case 2: h.set_rotation(R::from_local_to_parent(m)); break;
            case 3: h.set_rotation_local_to_parent(glm::quat_cast(m)); break;
            default: h.set_rotation_parent_to_local(glm::conjugate(glm::quat_cast(m)));
            }
        } else if (op == "spin") {
            V w = Q * vec(a);
            if (way % 2) h.set_angular_velocity(RadiansPerSecond(w.x), RadiansPerSecond(w.y), RadiansPerSecond(w.z));
            else node->set_angular_velocity(w);
        } else if (op == "bodyspin") {
            V w = Q * vec(a);
            h.set_body_angular_velocity(RadiansPerSecond(w.x), RadiansPerSecond(w.y), RadiansPerSecond(w.z));
        } else if (op == "scale") {
            V s = vec(a);
            if (way % 3 == 0) node->set_scale(s);
            else if (way % 3 == 1 && s.x == s.y && s.y == s.z) h.set_scale(s.x);
            else h.set_scale(s.x, s.y, s.z);
        } else if (op == "manual") {
            Transform<double> t;
            t.position = vec(a["p"]), t.velocity = vec(a["v"]), t.rotation = R::from_local_to_parent(mat(a["m"]));
            t.angular_velocity = Q * vec(a["w"]), t.scale = vec(a["s"]);
            node->set_manual_transform(t);
        } else if (op == "origin") h.set_spice_origin(a);
        else if (op == "frame") h.set_spice_frame(a);
        else if (op == "spice") h.set_spice(a, b);
        else if (op == "poscb") node->template set_custom_position_callback<PosCb>(a.get<int>());
        else if (op == "rotcb") node->template set_custom_rotation_callback<RotCb>(a.get<int>());
        else if (op == "cb") node->template set_custom_state_callback<Cb>(a.get<int>());
        else throw std::logic_error("no such operation");
    });
}
static J mode(TransformMode m)
{
    switch (m) {
    case TransformMode::MANUAL_TRANSFORM: return "man";
    case TransformMode::SPICE_TRANSFORM: return "spice";
    case TransformMode::POSITION_CALLBACK: return "pcb";
    case TransformMode::ROTATION_CALLBACK: return "rcb";
    default: return "tcb";
    }
}
template <class Fn> static J get(Fn f)
{
    try { return f(); } catch (const std::exception&) { return "error"; }
}
static int parent_number(std::uint64_t id)
{
    for (auto& [n, x] : nd)
        if (x.f && x.f->id() == id) return n;
    return -1;
}
static J handle(const J& c)
{
    std::string op = c["op"];
    if (op == "reset") {
        nd.clear();
        lamp.reset();
        sc = std::make_unique<S>();
        lamp.emplace(sc->new_sphere_light(units::Meter(1), units::Watt(1)));
        nd[1].f.emplace(sc->root.get());
        return J{{"r", "ok"}};
    }
    int i = c["i"];
    J r = "ok";
    try {
        if (op == "add") {
            F p = *nd.at(c["a"]).f;
            N n;
            if (c["b"] == "frame") n.f.emplace(p.new_subframe());
            else n.i.emplace(p.new_instance(*lamp));
            nd[i] = n;
        } else if (op == "addspice") {
            F p = *nd.at(c["a"]).f;
            N n;
            n.f.emplace(p.new_spice_subframe(c["b"][0], c["b"][1]));
            nd[i] = n;
        } else if (op == "del") {
            F p = *nd.at(c["a"]).f;
            if (nd.at(i).f) p.delete_subframe(*nd[i].f);
            else p.delete_instance(*nd[i].i);
        } else set(op, i, c["a"], c["b"]);
    } catch (const std::logic_error&) {
        throw;
    } catch (const std::exception&) {
        r = "error";
    }
    for (auto it = nd.begin(); it != nd.end();) it = on(it->first, [](auto& h) { return h.valid(); }) ? std::next(it) : nd.erase(it);
    J o = J::array();
    std::size_t kids = 0;
    for (auto& [n, x] : nd) {
        J e;
        on(n, [&](auto& h) {
            auto node = h.get();
            kids += node->get_children().size();
            e["n"] = n;
            e["par"] = n == 1 ? 0 : parent_number(h.get_parent().id());
            e["pm"] = mode(node->get_position_mode());
            e["rm"] = mode(node->get_rotation_mode());
            e["st"] = J{get([&] { return out(h.get_static_position()); }), get([&] { return out(h.get_static_velocity()); }),
                        get([&] { return out(h.get_static_rotation()); }), get([&] { return out(h.get_static_angular_velocity()); }),
                        get([&] { return out(h.get_static_scale()); }), get([&] { return J(h.get_spice_origin()); }),
                        get([&] { return J(h.get_spice_frame()); })};
            J at = J::array();
            for (auto& q : c["times"]) at.push_back(get([&] {
                Transform<double> t = node->get_apparent_transform(ObservationMode::TRUE_STATE, Time::from_et(q[0]), Time::from_et(q[1]), Transform<double>{});
                return J{{"p", out(t.position)}, {"v", out(t.velocity)}, {"m", out(t.rotation)}, {"w", out(t.angular_velocity)}, {"s", out(t.scale)}};
            }));
            e["at"] = at;
        });
        o.push_back(e);
    }
    if (kids + 1 != nd.size()) r = "the tree has nodes nobody made";
    return {{"r", r}, {"o", o}};
}
int main()
{
    std::cerr.rdbuf(nullptr);
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    vfspice::st.lsk = true;
    vfspice::st.frames = {{"FX", {Q, 0, Q}}, {"FY", {0, Q, 3 * Q}}};
    vfspice::st.spk = [](const std::string& who, double t, double* s) {
        if (who == "A") s[0] = 1 + t, s[1] = 2, s[2] = -1, s[3] = 1;
        else if (who == "B") s[1] = 3 - t, s[2] = 2 * t, s[4] = -1, s[5] = 2;
        else if (who != "SOLAR SYSTEM BARYCENTER") s[0] = 1e9;
    };
    int rc = vf::serve(handle);
    nd.clear(), lamp.reset(), sc.reset();
    return rc;
}
