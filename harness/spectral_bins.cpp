// Replays SpectralBins behaviours into huira::SpectralBins and SpectralQuantity, under address/UB checking.
#include "common.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/core/physics.hpp"
#include "huira/units/units.hpp"
#include "huira/util/logger.hpp"
using namespace huira;
static float num(const J& j)
{
    long v = j.get<long>();
    return v == -1999999999 ? std::nanf("") : v == -1999999998 ? INFINITY : static_cast<float>(v);
}
static J out(double x) { return std::isnan(x) ? J("nan") : std::isinf(x) ? J(x > 0 ? "inf" : "-inf") : J(x); }
template <class S> J arr(const S& s)
{
    J r = J::array();
    for (std::size_t i = 0; i < S::size(); ++i) r.push_back(out(s[i]));
    return r;
}
template <class S> S take(const J& j, float unit = 1.f)
{
    S s;
    for (std::size_t i = 0; i < S::size(); ++i) s[i] = num(j[i]) * unit;
    return s;
}
template <class A, class B> auto apply(const std::string& f, const A& a, const B& b)
{
    if (f == "+") return a + b;
    if (f == "-") return a - b;
    if (f == "*") return a * b;
    return a / b;
}
template <class A, class B> void assign(const std::string& f, A& a, const B& b)
{
    if (f == "+") a += b;
    else if (f == "-") a -= b;
    else if (f == "*") a *= b;
    else a /= b;
}
template <class S, class From> J scaled(const S& a, int to)
{
    units::SpectralQuantity<units::Power, From, S> q(a);
    auto show = [&](const auto& p) { return J{{"value", arr(p.value())}, {"base", arr(p.to_si())}, {"text", p.to_string()}}; };
    switch (to) {
    case -3: return show(q.template as<std::milli>());
    case 0: { units::SpectralWatts<S> w(q); return show(w); }
    case 3: return show(q.template as<std::kilo>());
    case 6: { units::SpectralMegawatts<S> w; w = units::SpectralMegawatts<S>(q); return show(w); }
    default: return show(q.template as<std::giga>());
    }
}
template <class S> J step(const J& c)
{
    std::string op = c["op"];
    J r = J::object();
    if (op == "data") {
        std::vector<double> w;
        std::vector<float> v;
        for (auto& x : c["w"]) w.push_back(static_cast<double>(num(x)) / 4.0);
        for (std::size_t i = 0; i < w.size(); ++i)
            if (c["w"][i].get<long>() > -1000000000) w[i] = c["w"][i].get<long>() / 4.0;
        for (auto& x : c["v"]) v.push_back(num(x));
        r["r"] = arr(S::integrate_over_data(w, v));
    } else if (op == "total") {
        S s = S::from_total(num(c["t"]));
        r["r"] = {{"bins", arr(s)}, {"total", s.total()}};
    } else if (op == "summary") {
        S s = take<S>(c["a"], .125f);
        r["r"] = {{"valid", s.valid()}, {"ratio", s.valid_ratio()},
                  {"sums", {out(s.total() * 8.), out(s.max() * 8.), out(s.min() * 8.), out(s.integrate() * 8. * 4e9), out(s.magnitude() * 8.)}}};
    } else if (op == "band") {
        r["r"] = take<S>(c["a"]).integrate_over_band(c["lo"].get<double>() / 4e9, c["hi"].get<double>() / 4e9) * 4e9;
    } else if (op == "arith") {
        S a = take<S>(c["a"]);
        std::string f = c["f"], shape = c["shape"];
        bool eq = c["eq"];
        S x;
        if (shape == "aa") {
            S b = take<S>(c["b"]);
            if (eq) assign(f, x = a, b); else x = apply(f, a, b);
        } else if (shape == "as") {
            int b = c["b"][0];
            if (eq) assign(f, x = a, b); else x = b % 2 ? apply(f, a, b) : apply(f, a, static_cast<double>(b));
        } else if (shape == "sa") x = apply(f, num(c["b"][0]), a);
        else x = shape == "neg" ? -a : shape == "pos" ? +a : a.sqrt();
        r["r"] = arr(x);
    } else if (op == "same") {
        S a = take<S>(c["a"]), b = take<S>(c["b"]);
        r["r"] = (a == b) != (a != b) ? J(a == b) : J("both or neither");
    } else if (op == "list") {
        alignas(S) unsigned char buf[sizeof(S)];
        std::memset(buf, 0x5a, sizeof buf);
        std::vector<float> v;
        for (auto& x : c["a"]) v.push_back(num(x));
        S* s;
        if (v.size() == 1) s = new (buf) S(std::initializer_list<float>{v[0]});
        else if (v.size() == 2) s = new (buf) S(std::initializer_list<float>{v[0], v[1]});
        else if (v.size() == 3) s = new (buf) S(std::initializer_list<float>{v[0], v[1], v[2]});
        else s = new (buf) S(std::initializer_list<float>{v[0], v[1], v[2], v[3]});
        r["r"] = arr(*s);
    } else if (op == "colour") {
        r["r"] = arr(convert_rgb_to_spectral<S>(take<RGB>(c["c"])));
    } else if (op == "scaled") {
        S a = take<S>(c["a"]);
        int to = c["to"];
        switch (c["from"].get<int>()) {
        case -3: r["r"] = scaled<S, std::milli>(a, to); break;
        case 0: r["r"] = scaled<S, std::ratio<1, 1>>(a, to); break;
        case 3: r["r"] = scaled<S, std::kilo>(a, to); break;
        case 6: r["r"] = scaled<S, std::mega>(a, to); break;
        default: r["r"] = scaled<S, std::giga>(a, to);
        }
    } else if (op == "edges") {
        J e = J::array();
        S p = S::photon_energies();
        auto all = S::get_all_bins();
        for (std::size_t i = 0; i < S::size(); ++i) {
            Bin b = S::get_bin(i);
            if (b.min_wavelength != all[i].min_wavelength || b.max_wavelength != all[i].max_wavelength) return {{"r", "get_all_bins differs"}};
            e.push_back({b.min_wavelength * 4e9, b.max_wavelength * 4e9, b.center_wavelength * 8e9, p[i] * b.center_wavelength});
        }
        r["r"] = e;
    }
    return r;
}
template <class S> concept Sound = requires { typename std::bool_constant<(S::get_bin(0).min_wavelength >= 0.0)>; };
template <class S> static constexpr bool sound = Sound<S>;
static const bool odd[] = {sound<SpectralBins<2, 500, 600, 550, 700>>, sound<SpectralBins<2, 500, 600, 600, 700>>, sound<SpectralBins<1, 600, 500>>,
                           sound<SpectralBins<2, 500, 500, 600>>, sound<SpectralBins<2, 400, 800, 500, 600>>,
                           sound<SpectralBins<3, 500, 600, 700, 800, 100, 499>>, sound<SpectralBins<2, 600, 500, 400>>,
                           sound<SpectralBins<2, 500, 600, 300, 501>>, sound<SpectralBins<3, 10, 20, 30, 40>>};
int main()
{
    Logger::enable_console_warning(false);
    std::map<std::string, J (*)(const J&)> all = {
        {"rgb", step<RGB>}, {"visible8", step<Visible8>}, {"swir8", step<SWIR8>}, {"edges", step<SpectralBins<3, 400, 450, 700, 701>>},
        {"one", step<SpectralBins<1, 500, 600>>}, {"gaps", step<SpectralBins<3, 700, 800, 400, 500, 900, 1000>>},
        {"teal", step<SpectralBinEdges<2, 400, 500, 590>>}, {"fine", step<UniformSpectralBins<16, 300, 1100>>},
        {"down", step<SpectralBins<2, 640, 800, 200, 640>>}, {"far", step<SpectralBins<2, 1000, 1500, 2000>>}, {"rim", step<SpectralBins<1, 720, 1000>>}};
    auto now = all["rgb"];
    return vf::serve([&](const J& c) {
        J r = J::object();
        std::string op = c["op"];
        if (op == "reset") now = all["rgb"];
        else if (op == "layout") now = all.at(c["name"]);
        else if (op == "exists") r["r"] = odd[c["i"].get<int>() - 1];
        else {
            try { r = now(c); } catch (const std::exception& e) { r["r"] = {{"error", e.what()}}; }
        }
        r["o"] = J::array();
        return r;
    });
}
