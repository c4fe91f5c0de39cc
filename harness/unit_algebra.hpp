// What the generated programs of check P26 use.
#include <cstdio>
#include <exception>
#include <limits>
#include <string>
#include <vector>

#include "huira/units/units.hpp"
#include "huira/util/logger.hpp"

using namespace huira::units;
using namespace huira::units::literals;

static const double nan_d = std::numeric_limits<double>::quiet_NaN();
static const float nan_f = std::numeric_limits<float>::quiet_NaN();
static const double inf = std::numeric_limits<double>::infinity();

static std::string esc(const std::string& s)
{
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') r += '\\';
        if (static_cast<unsigned char>(c) >= 32) r += c;
    }
    return r;
}
static int quiet = (huira::Logger::enable_console_warning(false), 0);

template <typename Q> void use(const Q& q) { volatile double x = q.to_si(); (void)x; }
static void failed(int i, const std::exception& e) { std::printf("{\"i\":%d,\"error\":\"%s\"}\n", i, esc(e.what()).c_str()); }

static std::string num(double x)
{
    char b[40];
    if (x != x) return "NaN";
    if (x > 1e308 || x < -1e308) return x > 0 ? "Infinity" : "-Infinity";
    std::snprintf(b, sizeof b, "%.17g", x);
    return b;
}

template <typename E, typename C> void value(int i, E e, C c)
{
    try {
        const auto q = e();
        using D = typename std::decay_t<decltype(q)>::dimension_type;
        std::printf("{\"i\":%d,\"dim\":[%d,%d,%d,%d,%d,%d,%d,%d,%d],\"si\":%s,\"sif\":%s,\"count\":%s,\"text\":\"%s\"}\n", i, D::length, D::mass,
                    D::time, D::current, D::temperature, D::amount, D::luminosity, D::angle, D::solid_angle, num(q.to_si()).c_str(),
                    num(q.to_si_f()).c_str(), num(c(q)).c_str(), esc(q.to_string()).c_str());
    } catch (const std::exception& x) { failed(i, x); }
}
template <typename A, typename B> void compare(int i, A a, B b)
{
    try {
        const auto x = a();
        const auto y = b();
        auto t = [](bool v) { return v ? "true" : "false"; };
        std::printf("{\"i\":%d,\"r\":[%s,%s,%s,%s,%s,%s]}\n", i, t(x < y), t(x <= y), t(x == y), t(x != y), t(x >= y), t(x > y));
    } catch (const std::exception& e) { failed(i, e); }
}
template <typename T, typename A, typename B> void accept(int i, T t, A a, B b)
{
    using X = decltype(a());
    using Y = decltype(b());
    std::printf("{\"i\":%d,\"r\":%s}\n", i, t(X{}, Y{}) ? "true" : "false");
}
template <typename F> void nan(int i, F f)
{
    const char* r = "accepted";
    try { f(); } catch (const std::exception&) { r = "rejected"; }
    std::printf("{\"i\":%d,\"r\":\"%s\"}\n", i, r);
}
