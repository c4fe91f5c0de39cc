// Replays PoseAlg behaviours into Transform<T>.
#include "common.hpp"
#include "huira/core/transform.hpp"
using namespace huira;
static const double Q = 1.5707963267948966;
template <class T> struct Side {
    using V = Vec3<T>;
    Transform<T> a;
    static V vec(const J& j) { return V{j[0].get<T>(), j[1].get<T>(), j[2].get<T>()}; }
    static J out(const V& v) { return J{v.x, v.y, v.z}; }
    static Transform<T> pose(const J& j)
    {
        Transform<T> t;
        Mat3<T> m{};
        for (int r = 0; r < 3; ++r)
            for (int c = 0; c < 3; ++c) m[c][r] = j["m"][static_cast<std::size_t>(r)][static_cast<std::size_t>(c)].get<T>();
        t.position = vec(j["p"]), t.scale = vec(j["s"]), t.rotation = Rotation<T>::from_local_to_parent(m);
        t.velocity = vec(j["va"]) + static_cast<T>(Q) * vec(j["vb"]);
        t.angular_velocity = static_cast<T>(Q) * vec(j["k"]);
        return t;
    }
    J step(const J& c)
    {
        std::string op = c["op"];
        Transform<T> g = pose(c["with"]);
        if (op == "fresh") a = g;
        else if (op == "right") a = a * g;
        else if (op == "left") a = g * a;
        else if (op == "invert") a = a.inverse();
        else if (op == "undo right") a = (a * g) * g.inverse();
        else if (op == "undo left") a = g.inverse() * (g * a);
        else if (op == "undo twice") a = a.inverse().inverse();
        else throw std::logic_error("no such operation");
        J o;
        J m = J::array();
        V e[3] = {a.rotation * V{1, 0, 0}, a.rotation * V{0, 1, 0}, a.rotation * V{0, 0, 1}};
        for (int i = 0; i < 3; ++i) m.push_back(J{e[0][i], e[1][i], e[2][i]});
        o["pose"] = {{"p", out(a.position)}, {"v", out(a.velocity)}, {"m", m}, {"w", out(a.angular_velocity)}, {"s", out(a.scale)}};
        Mat4<T> M = a.to_matrix();
        for (auto& pj : c["points"]) {
            V p = vec(pj);
            V w = a.apply_to_point(p);
            o["pts"].push_back(out(w));
            o["dirs"].push_back(out(a.apply_to_direction(p)));
            auto h = M * glm::vec<4, T>(p.x, p.y, p.z, T(1));
            o["mat"].push_back(J{h.x, h.y, h.z, h.w});
            auto d = M * glm::vec<4, T>(p.x, p.y, p.z, T(0));
            o["matdirs"].push_back(J{d.x, d.y, d.z, d.w});
            o["vel"].push_back(out(a.velocity_of_local_point(p)));
            o["vel2"].push_back(out(a.velocity_of_point(w)));
            o["appvel"].push_back(out(a.apply_to_velocity(p)));
            o["appw"].push_back(out(a.apply_to_angular_velocity(p)));
        }
        return o;
    }
};
static Side<double> d;
static Side<float> f;
static J handle(const J& c)
{
    if (c["op"] == "reset") {
        d = {}, f = {};
        return J{{"r", "ok"}};
    }
    J r{{"d", d.step(c)}, {"f", f.step(c)}};
    // conversion between the two
    Side<float> x;
    x.a = static_cast<Transform<float>>(d.a);
    J id = {{"op", "right"}, {"points", c["points"]}, {"with", {{"p", {0, 0, 0}}, {"va", {0, 0, 0}}, {"vb", {0, 0, 0}}, {"k", {0, 0, 0}}, {"s", {1, 1, 1}},
                                                                 {"m", {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}}}};
    r["x"] = x.step(id);
    return {{"r", "ok"}, {"o", r}};
}
int main()
{
    std::cerr.rdbuf(nullptr);
    return vf::serve(handle);
}
