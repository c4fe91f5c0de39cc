// Replays ImageAccess behaviours into Image<T> for several pixel types at once; built with
// address and undefined-behaviour checking.
#include "common.hpp"
#include "huira/images/image.hpp"
#include <sys/resource.h>
using namespace huira;
template <typename P> P pix(int v) { return static_cast<P>(v); }
template <> Vec3<float> pix<Vec3<float>>(int v) { float f = static_cast<float>(v); return {f, 2 * f, -f}; }
template <> RGB pix<RGB>(int v) { float f = static_cast<float>(v); return RGB{f, 4 * f, f / 2}; }
// the value in each channel, brought back to the scale of v
inline std::vector<double> flat(float p) { return {p}; }
inline std::vector<double> flat(double p) { return {p}; }
inline std::vector<double> flat(uint8_t p) { return {double(p)}; }
inline std::vector<double> flat(const Vec3<float>& p) { return {p.x, p.y / 2.0, -p.z}; }
inline std::vector<double> flat(const RGB& p) { return {p[0], p[1] / 4.0, p[2] * 2.0}; }
template <typename P> double val(const P& p)
{
    auto f = flat(p);
    for (double d : f) if (!(std::abs(d - f[0]) <= 1e-4 * std::max(1.0, std::abs(f[0])))) return -12345;
    return f[0];
}
static float wild(const std::string& s)
{
    const float inf = std::numeric_limits<float>::infinity();
    if (s == "big") return 67108864.f;
    if (s == "-big") return -6.7108864e30f;
    if (s == "inf") return inf;
    if (s == "-inf") return -inf;
    return std::numeric_limits<float>::quiet_NaN();
}
template <typename P>
struct Rig {
    Image<P> im[3];
    void reset() { for (auto& i : im) i = Image<P>(); }
    template <WrapMode W> J smp(const Image<P>& m, float u, float v) { return J::array({val(m.template sample_nearest_neighbor<W>(u, v)), val(m.template sample_bilinear<W>(u, v))}); }
    J sample(const Image<P>& m, const std::string& mode, float u, float v)
    {
        if (mode == "clamp") return smp<WrapMode::Clamp>(m, u, v);
        if (mode == "mirror") return smp<WrapMode::Mirror>(m, u, v);
        J a = smp<WrapMode::Repeat>(m, u, v);
        J d = J::array({val(m.sample_nearest_neighbor(u, v)), val(m.sample_bilinear(u, v))});
        return a == d ? a : J("default mode is not repeat");
    }
    J step(const J& c)
    {
        J a = J::object();
        std::string op = c["op"];
        int k = c["k"];
        Image<P>& m = im[k];
        const Image<P>& cm = m;
        P v = pix<P>(c.value("v", 0));
        auto guard = [&](auto f) { try { f(); return J("ok"); } catch (const std::exception&) { return J("error"); } };
        static int turn = 0;
        ++turn;
        if (op == "new") {
            int w = c["w"], h = c["h"];
            if (c["v"] == 0 && turn % 2) m = turn % 4 == 1 ? Image<P>(w, h) : Image<P>(Resolution{w, h});
            else m = turn % 3 ? Image<P>(w, h, v) : Image<P>(Resolution{w, h}, v);
        } else if (op == "copy") {
            std::string how = c["how"];
            if (how == "construct") { Image<P> t(im[3 - k]); m = std::move(t); }
            else if (how == "assign") m = im[3 - k];
            else { Image<P> t = std::move(im[3 - k]); m = t; im[3 - k] = std::move(t); }
        } else if (op == "clear") m.clear();
        else if (op == "fill") { if (c["v"] == 0) m.reset(); else m.fill(v); }
        else if (op == "write") { int x = c["x"], y = c["y"]; a["r"] = guard([&] { m.at(x, y) = v; }); }
        else if (op == "read") {
            int x = c["x"], y = c["y"];
            double g = 0, g2 = 0, g3 = 0;
            J r1 = guard([&] { g = val(cm.at(x, y)); }), r2 = guard([&] { g2 = val(m.at(x, y)); });
            if (r1 == "ok") { g3 = val(cm(x, y)); if (g3 != g || val(m(x, y)) != g || val(cm[std::size_t(y) * m.width() + x]) != g || val(m.data()[y * m.width() + x]) != g) g = -1; }
            a["r"] = r1 != r2 ? J("const and plain access differ") : r1 == "ok" ? J::array({g == g2 ? g : -1}) : r1;
        } else if (op == "write_index") { long i = c["i"]; a["r"] = guard([&] { m.at(static_cast<std::size_t>(i)) = v; }); }
        else if (op == "write_pos") { Pixel p{c["px"].get<int>() / 8.f, c["py"].get<int>() / 8.f}; a["r"] = guard([&] { (void)cm.at(p); m.at(p) = v; }); }
        else if (op == "write_wild") {
            std::string w = c["what"];
            const float inf = std::numeric_limits<float>::infinity(), nan = std::numeric_limits<float>::quiet_NaN();
            const int lo = std::numeric_limits<int>::min(), hi = std::numeric_limits<int>::max();
            if (w == "min_int") { J r = guard([&] { m.at(lo, 0) = v; }); if (r == "error") r = guard([&] { m.at(0, lo) = v; }); if (r == "error") r = guard([&] { (void)cm.at(lo, lo); }); a["r"] = r; }
            else if (w == "max_int") { J r = guard([&] { m.at(hi, 0) = v; }); if (r == "error") r = guard([&] { m.at(0, hi) = v; }); if (r == "error") r = guard([&] { m.at(static_cast<std::size_t>(-1)) = v; }); a["r"] = r; }
            else {
                Pixel p = w == "nan_x" ? Pixel{nan, 0.f} : w == "nan_y" ? Pixel{0.f, nan} : w == "inf_x" ? Pixel{inf, 0.f} : w == "-inf_y" ? Pixel{0.f, -inf} : w == "huge_x" ? Pixel{3e9f, 0.f} : Pixel{0.f, -1e20f};
                J r1 = guard([&] { m.at(p) = v; }), r2 = guard([&] { (void)cm.at(p); });
                a["r"] = r1 == r2 ? r1 : J("differ");
            }
        } else if (op == "sample") {
            int w = std::max(1, m.width() - 1), h = std::max(1, m.height() - 1);
            a["r"] = sample(m, c["mode"], static_cast<float>(c["p"].get<int>()) / (8.f * w), static_cast<float>(c["q"].get<int>()) / (8.f * h));
        } else if (op == "sample_wild") a["r"] = sample(m, c["mode"], wild(c["s"]), wild(c["t"]));
        for (int i = 1; i <= 2; ++i) {
            J px = J::array();
            for (std::size_t n = 0; n < im[i].size(); ++n) px.push_back(val(im[i][n]));
            J o = {{"w", im[i].width()}, {"h", im[i].height()}, {"px", px}};
            if (im[i].empty() != (im[i].width() == 0 || im[i].height() == 0) || bool(im[i]) == im[i].empty()) o["w"] = "empty() wrong";
            if (im[i].resolution().width != im[i].width() || im[i].resolution().height != im[i].height()) o["h"] = "resolution() wrong";
            a["o"].push_back(o);
        }
        return a;
    }
};
static Rig<float> rf; static Rig<double> rd; static Rig<Vec3<float>> rv; static Rig<RGB> rr; static Rig<uint8_t> ru;
// images of more than 2^31 pixels: either refused or usable in every corner
static J huge(int w, int h)
{
    try {
        Image<uint8_t> m(w, h);
        uint8_t& last = m.at(w - 1, h - 1);
        if (&last - m.data() != (static_cast<long>(w) * h - 1)) return "wrong place";
        last = 7;
        m.at(0, h - 1) = 9;
        return m.at(m.size() - 1) == 7 && m.at(w - 1, 0) == 0 && m.data()[static_cast<long>(w) * (h - 1)] == 9 ? "ok" : "wrong place";
    } catch (const std::bad_alloc&) { return "ok"; } catch (const std::length_error&) { return "ok"; }
}
static J handle(const J& c)
{
    J out = J::object();
    std::string op = c["op"];
    if (op == "reset") { rf.reset(); rd.reset(); rv.reset(); rr.reset(); ru.reset(); return out; }
    if (op == "huge") { out["r"] = huge(c["w"], c["h"]); return out; }
    J f = rf.step(c), d = rd.step(c), v = rv.step(c), r = rr.step(c), u = ru.step(c);
    // the float image speaks for all, unless another differs
    auto same = [](const J& a, const J& b) {
        if (a.is_array() && b.is_array() && a.size() == b.size()) {
            for (std::size_t i = 0; i < a.size(); ++i) if (a[i].is_number() ? !b[i].is_number() || std::abs(a[i].get<double>() - b[i].get<double>()) > 1e-3 : a[i] != b[i]) return false;
            return true;
        }
        return a == b;
    };
    out = f;
    for (auto [n, x] : {std::pair{"double", &d}, {"vec3", &v}, {"rgb", &r}})
        if ((*x)["o"] != f["o"] || !same(f.value("r", J()), x->value("r", J()))) out["other"][n] = *x;
    if (u["o"] != f["o"]) out["other"]["uint8"] = u;
    else if (op == "sample" || op == "sample_wild") out["u8"] = u["r"];
    else if (u.value("r", J()) != f.value("r", J())) out["other"]["uint8"] = u;
    return out;
}
int main() { return vf::serve(handle); }
