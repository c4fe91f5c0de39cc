// Makes pictures, writes them to PNG, TIFF and FITS files, reads them again; answers what a slot holds after each step.
#include "common.hpp"
#include "huira/huira.hpp"
#include <limits>
#include <map>
#include <variant>
using namespace huira;
struct Slot {
    std::variant<ImageBundle<float>, ImageBundle<RGB>> b;
    FitsMetadata meta;
};
static std::map<int, Slot> slots;
static fs::path path(int f)
{
    const char* names[] = {"one.png", "deep/er/two.png", "one.tiff", "deep/two.tif", "one.fits", "sky/two.fits"};
    return fs::path(std::getenv("VF_DIR")) / "pictures" / names[f - 1];
}
static float value(const J& v)
{
    double n = v[0], d = v[1];
    if (d == 0) return n == 0 ? std::numeric_limits<float>::quiet_NaN() : std::copysign(std::numeric_limits<float>::infinity(), static_cast<float>(n));
    return static_cast<float>(n / d);
}
static J shown(float v) { return std::isfinite(v) ? J(static_cast<double>(v)) : J(std::isnan(v) ? "nan" : v > 0 ? "inf" : "-inf"); }
static std::vector<std::pair<const char*, std::string*>> texts(FitsMetadata& m)
{
    return {{"object", &m.object}, {"telescop", &m.telescop}, {"instrume", &m.instrume}, {"observer", &m.observer}, {"date_obs", &m.date_obs},
            {"origin", &m.origin}, {"filter", &m.filter}, {"bunit", &m.bunit}, {"ctype1", &m.ctype1}, {"ctype2", &m.ctype2}};
}
static std::vector<std::pair<const char*, std::optional<double>*>> nums(FitsMetadata& m)
{
    return {{"crpix1", &m.crpix1}, {"crpix2", &m.crpix2}, {"crval1", &m.crval1}, {"crval2", &m.crval2},
            {"cdelt1", &m.cdelt1}, {"cdelt2", &m.cdelt2}, {"datamin", &m.datamin}, {"datamax", &m.datamax}};
}
static FitsMetadata metadata(const J& j)
{
    FitsMetadata m;
    for (auto& [k, p] : texts(m)) *p = j["text"][k];
    for (auto& [k, p] : nums(m))
        if (!j["num"][k].empty()) *p = std::stod(j["num"][k][0].get<std::string>());
    if (j["exptime"] != "") m.exptime = std::stof(j["exptime"].get<std::string>());
    m.equinox = std::stod(j["equinox"].get<std::string>());
    m.radesys = j["radesys"];
    if (j["sat"] != 0) m.saturate = j["sat"] == -1 ? 4294967295.0 : j["sat"].get<double>();
    for (const J& c : j["comments"]) m.comments.push_back(c);
    for (const J& c : j["history"]) m.history.push_back(c);
    for (const J& c : j["custom"]) {
        FitsKeyword k;
        k.key = c["k"];
        k.comment = c["c"];
        std::string v = c["v"], t = c["t"];
        if (t == "s") k.value = v;
        else if (t == "d") k.value = std::stod(v);
        else if (t == "i") k.value = std::stoi(v);
        else k.value = v == "T";
        m.custom_keywords.push_back(k);
    }
    return m;
}
static J shown(FitsMetadata m)
{
    J j = {{"text", J::object()}, {"num", J::object()}, {"comments", m.comments}, {"history", m.history}, {"custom", J::array()},
           {"exptime", m.exptime}, {"equinox", m.equinox}, {"radesys", m.radesys}, {"sat", m.saturate ? J(*m.saturate) : J(nullptr)}};
    for (auto& [k, p] : texts(m)) j["text"][k] = *p;
    for (auto& [k, p] : nums(m)) j["num"][k] = *p ? J(**p) : J(nullptr);
    for (auto& k : m.custom_keywords) {
        J v;
        const char* t[] = {"s", "d", "i", "b"};
        std::visit([&](auto&& x) { v = x; }, k.value);
        j["custom"].push_back({{"k", k.key}, {"t", t[k.value.index()]}, {"v", v}, {"c", k.comment}});
    }
    return j;
}
template <typename P>
static ImageBundle<P> made(const J& p)
{
    int w = p["w"], h = p["h"], aw = p["aw"], ah = p["ah"];
    ImageBundle<P> b(w > 0 ? Image<P>(w, h) : Image<P>());
    for (std::size_t i = 0; i < p["px"].size(); ++i) {
        const J& v = p["px"][i];
        if constexpr (std::is_same_v<P, float>) b.image[i] = value(v[0]);
        else b.image[i] = RGB{value(v[0]), value(v[1]), value(v[2])};
    }
    if (aw > 0) {
        b.alpha = Image<float>(aw, ah);
        for (std::size_t i = 0; i < p["alpha"].size(); ++i) b.alpha[i] = value(p["alpha"][i]);
    }
    b.color_space = p["space"] == "sRGB" ? ColorSpaceHint::sRGB : p["space"] == "Linear" ? ColorSpaceHint::Linear
                  : p["space"] == "Gamma" ? ColorSpaceHint::Gamma : ColorSpaceHint::Unknown;
    b.gamma_value = p["gamma"];
    b.bit_depth = p["depth"];
    b.image.set_sensor_bit_depth(p["bits"]);
    return b;
}
static J shown(const Slot& s)
{
    return std::visit([&](const auto& b) -> J {
        J px = J::array(), a = J::array();
        for (int y = 0; y < b.image.height(); ++y)
            for (int x = 0; x < b.image.width(); ++x) {
                if constexpr (std::is_same_v<std::decay_t<decltype(b)>, ImageBundle<float>>) px.push_back({shown(b.image(x, y))});
                else px.push_back({shown(b.image(x, y)[0]), shown(b.image(x, y)[1]), shown(b.image(x, y)[2])});
            }
        for (int y = 0; y < b.alpha.height(); ++y)
            for (int x = 0; x < b.alpha.width(); ++x) a.push_back(shown(b.alpha(x, y)));
        const char* space[] = {"Linear", "sRGB", "Gamma", "Unknown"};
        return {{"w", b.image.width()}, {"h", b.image.height()}, {"px", px}, {"alpha", a}, {"aw", b.alpha.width()}, {"ah", b.alpha.height()},
                {"space", space[static_cast<int>(b.color_space)]}, {"gamma", b.gamma_value}, {"depth", b.bit_depth},
                {"bits", b.image.sensor_bit_depth()}, {"meta", shown(s.meta)}};
    }, s.b);
}
static void write(const Slot& s, int f, int bp)
{
    if (f > 4) return write_image_fits(path(f), std::get<0>(s.b).image, bp, s.meta);
    std::visit([&](const auto& b) {
        if (f <= 2) write_image_png(path(f), b);
        else write_image_tiff(path(f), b);
    }, s.b);
}
static Slot read(int f, bool mono, bool alpha, const std::string& via)
{
    Slot s;
    if (f > 4) {
        auto [image, meta] = read_image_fits(path(f));
        s.b = ImageBundle<float>(std::move(image));
        s.meta = meta;
    } else if (via == "any") {
        if (mono) s.b = read_image_mono(path(f), alpha);
        else s.b = read_image(path(f), alpha);
    } else if (f <= 2) {
        if (mono) s.b = read_image_png_mono(path(f), alpha);
        else s.b = read_image_png(path(f), alpha);
    } else {
        if (mono) s.b = read_image_tiff_mono(path(f), alpha);
        else s.b = read_image_tiff_rgb(path(f), alpha);
    }
    return s;
}
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    return vf::serve([&](const J& c) -> J {
        std::string op = c["op"];
        if (op == "reset") {
            slots.clear();
            fs::remove_all(fs::path(std::getenv("VF_DIR")) / "pictures");
            return J::object();
        }
        bool done = true;
        Slot& s = slots[c["s"]];
        if (op == "make") {
            if (c["ch"] == 1) s.b = made<float>(c["p"]);
            else s.b = made<RGB>(c["p"]);
            s.meta = metadata(c["p"]["meta"]);
        } else if (op == "turn") {
            std::visit([&](auto& b) { b.bit_depth = c["depth"]; b.image.set_sensor_bit_depth(c["bits"]); }, s.b);
        } else {
            try {
                if (op == "write") write(s, c["f"], c["bp"]);
                else s = read(c["f"], c["ch"] == 1, c["alpha"], c["via"]);
            } catch (const std::exception&) {
                done = false;
            }
        }
        return {{"res", done}, {"p", shown(s)}};
    });
}
