// Replays Convolve behaviours into Image<T>::convolve for several pixel types at once.
#include "common.hpp"
#include "huira/images/image.hpp"
using namespace huira;
// an image value and a kernel value in each channel; the result comes back to the same scale
template <typename P> struct Chan;
template <> struct Chan<float> { static float i(float v) { return v; } static float k(float v) { return v; } static std::vector<double> r(float p) { return {p}; } };
template <> struct Chan<Vec3<float>> {
    static Vec3<float> i(float v) { return {v, -v, 2 * v}; }
    static Vec3<float> k(float v) { return {v, v / 2, 2 * v}; }
    static std::vector<double> r(const Vec3<float>& p) { return {p.x, -2.0 * p.y, p.z / 4.0}; }
};
template <> struct Chan<RGB> {
    static RGB i(float v) { return RGB{v, 2 * v, v / 2}; }
    static RGB k(float v) { return RGB{2 * v, v, -v}; }
    static std::vector<double> r(const RGB& p) { return {p[0] / 2.0, p[1] / 2.0, -2.0 * p[2]}; }
};
template <typename P>
struct Rig {
    Image<P> im;
    static Image<P> make(const J& c, bool kernel)
    {
        Image<P> m(c["w"].get<int>(), c["h"].get<int>());
        for (std::size_t t = 0; t < m.size(); ++t) { float v = c["px"][t].get<float>(); m[t] = kernel ? Chan<P>::k(v) : Chan<P>::i(v); }
        return m;
    }
    J step(const J& c)
    {
        std::string op = c["op"];
        if (op == "image") { im = make(c, false); im.set_sensor_bit_depth(c["bits"]); }
        else if (op == "convolve") {
            Image<P> k = make(c, true), keep = k;
            im.convolve(k);
            for (std::size_t t = 0; t < k.size(); ++t) if (!(k[t] == keep[t])) return "kernel changed";
        } else if (op == "self") {
            im.convolve(im);
        }
        J px = J::array();
        for (std::size_t t = 0; t < im.size(); ++t) px.push_back(Chan<P>::r(im[t]));
        return {{"w", im.width()}, {"h", im.height()}, {"bits", im.sensor_bit_depth()}, {"px", px}};
    }
};
static J handle(const J& c)
{
    static Rig<float> f;
    J a = J::object();
    if (c["op"] == "reset") { f = {}; return a; }
    if (c["op"] == "self" || c["op"] == "image") {
        J r = f.step(c);
        a["o"] = r;
    } else {
        // three-channel images start from the values the single-channel one has
        Rig<Vec3<float>> v; Rig<RGB> r;
        J img = {{"op", "image"}, {"w", f.im.width()}, {"h", f.im.height()}, {"bits", f.im.sensor_bit_depth()}, {"px", J::array()}};
        Image<uint16_t> whole(f.im.resolution());
        for (std::size_t t = 0; t < f.im.size(); ++t) { img["px"].push_back(f.im[t]); whole[t] = static_cast<uint16_t>(t); }
        v.step(img);
        r.step(img);
        a["o"] = f.step(c);
        a["vec3"] = v.step(c);
        a["rgb"] = r.step(c);
        bool threw = false;
        Image<uint16_t> wk(c["w"].get<int>(), c["h"].get<int>(), 1);
        try { whole.convolve(wk); } catch (const std::exception&) { threw = true; }
        for (std::size_t t = 0; t < whole.size(); ++t) if (whole[t] != static_cast<uint16_t>(t)) threw = false;
        a["integer_refused"] = threw;
    }
    return a;
}
int main() { return vf::serve(handle); }
