// Replays FrameChannels behaviours into FrameBuffer, for three-channel and single-band spectra
// and several resolutions.
#include "common.hpp"
#include <map>
#include "huira/huira.hpp"
using namespace huira;

template <typename P> P pix(int w, bool depth);
template <> float pix<float>(int w, bool depth) { return w ? 0.5f * static_cast<float>(w) : (depth ? std::numeric_limits<float>::infinity() : 0.f); }
template <> uint64_t pix<uint64_t>(int w, bool) { return w ? (uint64_t{1} << 40) + static_cast<uint64_t>(w) : 0; }
template <> Vec3<float> pix<Vec3<float>>(int w, bool) { float f = static_cast<float>(w); return {f, -f, 2 * f}; }
template <> RGB pix<RGB>(int w, bool) { float f = static_cast<float>(w); return RGB{f, 3 * f, f / 2}; }
template <> Visible8 pix<Visible8>(int w, bool) { Visible8 v{0}; for (std::size_t i = 0; i < v.size(); ++i) v[i] = static_cast<float>(w) * static_cast<float>(i + 1); return v; }

template <typename S>
struct Rig {
    std::unique_ptr<FrameBuffer<S>> fb;
    int w = 0, h = 0;
    void reset(int width, int height)
    {
        w = width; h = height;
        static std::map<int, std::unique_ptr<CameraModel<S>>> cams;
        auto& cam = cams[100 * w + h];
        if (!cam) {
            cam = std::make_unique<CameraModel<S>>();
            cam->configure_sensor_from_pitch(Resolution{w, h}, units::Micrometer{8.0});
        }
        fb = std::make_unique<FrameBuffer<S>>(cam->make_frame_buffer());
    }
    template <typename F> void each(F&& f)
    {
        auto& b = *fb;
        f("depth", [&](bool e) { b.enable_depth(e); }, b.has_depth(), b.depth(), true);
        f("albedo", [&](bool e) { b.enable_albedo(e); }, b.has_albedo(), b.albedo(), false);
        f("ids", [&](bool e) { b.enable_geometry_ids(e); }, b.has_geometry_ids(), b.geometry_ids(), false);
        f("camera_normals", [&](bool e) { b.enable_camera_normals(e); }, b.has_camera_normals(), b.camera_normals(), false);
        f("world_normals", [&](bool e) { b.enable_world_normals(e); }, b.has_world_normals(), b.world_normals(), false);
        f("direct", [&](bool e) { b.enable_received_direct_power(e); }, b.has_received_direct_power(), b.received_direct_power(), false);
        f("indirect", [&](bool e) { b.enable_received_indirect_power(e); }, b.has_received_indirect_power(), b.received_indirect_power(), false);
        f("power", [&](bool e) { b.enable_received_power(e); }, b.has_received_power(), b.received_power(), false);
        f("response", [&](bool e) { b.enable_sensor_response(e); }, b.has_sensor_response(), b.sensor_response(), false);
    }
    J step(const J& c)
    {
        std::string op = c["op"], ch = c.value("c", "");
        int wr = c.value("w", 0);
        bool done = false;
        if (op == "clear") fb->clear();
        else each([&](const char* n, auto en, bool, auto& im, bool) {
            using P = std::remove_cvref_t<decltype(im[0])>;
            if (done || ch != n) return;
            done = true;
            if (op == "enable") en(true);
            else if (op == "disable") en(false);
            else if (op == "fill") im.fill(pix<P>(wr, false));
            else im.at(w - 1, h - 1) = pix<P>(wr, false);
        });
        J o;
        each([&](const char* n, auto, bool has, auto& im, bool depth) {
            using P = std::remove_cvref_t<decltype(im[0])>;
            J v = J::array({has, 0, 0});
            if (has) {
                if (im.width() != w || im.height() != h) { o[n] = "wrong size"; return; }
                auto which = [&](const P& p) { for (int k = 0; k <= 3; ++k) if (p == pix<P>(k, k == 0 && depth)) return k; return -1; };
                v[2] = which(im.at(w - 1, h - 1));
                // the rest of the picture
                int rest = -2;
                for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (x != w - 1 || y != h - 1) {
                    int k = which(im.at(x, y));
                    rest = rest == -2 || rest == k ? k : -3;
                }
                v[1] = rest;
            } else if (im.size() != 0) v[1] = "data in a disabled channel";
            o[n] = v;
        });
        if (fb->width() != w || fb->height() != h || fb->resolution().width != w) o["size"] = "changed";
        return o;
    }
};
static Rig<RGB> rgb;
static Rig<Visible8> vis;
static J keep;
static J handle(const J& c)
{
    if (c["op"] == "reset") {
        static int n = 0;
        static const int sz[][2] = {{3, 2}, {1, 2}, {5, 4}, {2, 1}};
        rgb.reset(sz[n % 4][0], sz[n % 4][1]);
        vis.reset(sz[(n + 1) % 4][0], sz[(n + 1) % 4][1]);
        ++n;
        keep = c.value("keep", J::array());
        return J::object();
    }
    J a = rgb.step(c), b = vis.step(c), r;
    if (a != b) return {{"o", {{"rgb", a}, {"visible8", b}}}};
    for (auto& k : a.items()) if (keep.empty() || k.key() == "size" || std::find(keep.begin(), keep.end(), k.key()) != keep.end()) r["o"][k.key()] = k.value();
    return r;
}
int main() { return vf::serve(handle); }
