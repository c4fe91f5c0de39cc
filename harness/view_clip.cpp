// Replays ViewClip behaviours into Frustum and TrajectoryArc, under address/UB checking.
#include "common.hpp"
#include "huira/huira.hpp"
using namespace huira;
static Vec3<float> vec(const J& j) { return {j[0].get<float>(), j[1].get<float>(), j[2].get<float>()}; }
static std::vector<Vec3<float>> vecs(const J& j) { std::vector<Vec3<float>> r; for (auto& x : j) r.push_back(vec(x)); return r; }
static bool close(float a, double b, double scale) { return std::abs(a - b) <= 2e-4 * scale; }
template <IsSpectral S>
struct Rig {
    Frustum<S> f;
    static Vertex<S> vertex(const Vec3<float>& p, int i)
    {
        Vertex<S> v;
        v.position = p;
        v.uv = {i == 0 ? 1.f : 0.f, i == 1 ? 1.f : 0.f};
        for (std::size_t k = 0; k < S::size(); ++k) v.albedo[k] = static_cast<float>((i * 7 + k * 3 + 1) % 11) / 11.f;
        v.normal = {i * 1.f, 1.f - i, 2.f};
        return v;
    }
    static Tangent tangent(int i) { return {{1.f + i, -i * 2.f, .5f}, {-1.f * i, 3.f, i * i * 1.f}}; }
    J triangle(const J& c, bool with_tangents)
    {
        auto p = vecs(c["tri"]);
        Triangle<S> t;
        for (int i = 0; i < 3; ++i) t.vertices[i] = vertex(p[i], i);
        if (with_tangents) t.tangents = {tangent(0), tangent(1), tangent(2)};
        J out = J::array();
        auto clipped = f.clip_triangle(t);
        for (const auto& o : clipped) {
            if (o.tangents.has_value() != with_tangents) return "tangents lost or invented";
            J tri = J::array();
            for (int i = 0; i < 3; ++i) {
                const auto& v = o.vertices[i];
                double w[3] = {v.uv.x, v.uv.y, 1.0 - v.uv.x - v.uv.y};
                auto mix = [&](auto get) { double s = 0; for (int k = 0; k < 3; ++k) s += w[k] * get(k); return s; };
                double size = std::max({glm::length(p[0]), glm::length(p[1]), glm::length(p[2])});
                for (int d = 0; d < 3; ++d) {
                    if (!close(v.position[d], mix([&](int k) { return p[k][d]; }), size)) return "position";
                    if (!close(v.normal[d], mix([&](int k) { return vertex(p[k], k).normal[d]; }), 4)) return "normal";
                    if (with_tangents && !close((*o.tangents)[i].tangent[d], mix([&](int k) { return tangent(k).tangent[d]; }), 4)) return "tangent";
                    if (with_tangents && !close((*o.tangents)[i].bitangent[d], mix([&](int k) { return tangent(k).bitangent[d]; }), 4)) return "bitangent";
                }
                for (std::size_t k = 0; k < S::size(); ++k)
                    if (!close(v.albedo[k], mix([&](int q) { return vertex(p[q], q).albedo[k]; }), 1)) return "albedo";
                tri.push_back({w[0], w[1], w[2]});
            }
            out.push_back(tri);
        }
        bool same = clipped.size() == 1 && clipped[0].vertices[0].position == p[0] && clipped[0].vertices[1].position == p[1] && clipped[0].vertices[2].position == p[2];
        same = same || (clipped.size() == 1 && clipped[0].vertices[0].position == p[1] && clipped[0].vertices[1].position == p[2] && clipped[0].vertices[2].position == p[0]);
        same = same || (clipped.size() == 1 && clipped[0].vertices[0].position == p[2] && clipped[0].vertices[1].position == p[0] && clipped[0].vertices[2].position == p[1]);
        return {{"tris", out}, {"same", same}};
    }
    J arc(const J& c)
    {
        auto p = vecs(c["arc"]);
        float s = c["unit"];
        for (auto& q : p) q = q / s;
        TrajectoryArc a(p);
        J iv = J::array(), vals = J::array();
        auto least = [&](float t) { float m = 1e30f; for (auto& n : f.plane_normals()) m = std::min(m, glm::dot(n, a.evaluate(t)) / glm::length(n)); return m; };
        for (auto [lo, hi] : f.clip_arc(a)) iv.push_back({lo, hi, least(lo), least(hi)});
        for (int k = 0; k <= 48; ++k) {
            J row = J::array();
            for (auto& n : f.plane_normals()) row.push_back(glm::dot(n, a.evaluate(k / 48.f)));
            vals.push_back(row);
        }
        if (a.sample_count() != p.size()) return "sample_count";
        return {{"intervals", iv}, {"values", vals}};
    }
};
int main()
{
    Rig<RGB> a;
    Rig<Visible8> b;
    return vf::serve([&](const J& c) {
        J r = J::object();
        std::string op = c["op"];
        if (op == "reset") { a.f = Frustum<RGB>(); b.f = Frustum<Visible8>(); }
        else if (op == "volume") {
            a.f = Frustum<RGB>(vecs(c["planes"]));
            b.f = Frustum<Visible8>(vecs(c["planes"]));
            r["r"] = a.f.plane_count();
        } else if (op == "point") {
            Vec3<float> p = vec(c["p"]);
            bool x = a.f.contains(p);
            r["r"] = x == b.f.contains(p * 0.25f) && x == a.f.contains(p * 1024.f) ? J(x) : J("scale matters");
        } else if (op == "triangle") {
            J x = a.triangle(c, true), y = b.triangle(c, false);
            r["r"] = x == y ? x : J({{"differ", {x, y}}});
        } else if (op == "arc") r["r"] = a.arc(c);
        r["o"] = J::array();
        return r;
    });
}
