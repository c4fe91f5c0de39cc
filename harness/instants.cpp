// Replays Instants behaviours into huira::Time and huira::Interval over the SPICE stand-in.
#include "common.hpp"
#include "huira/core/spice.hpp"
#include "huira/core/time.hpp"
#include "huira/util/logger.hpp"
#include "huira/core/interval.hpp"
using namespace huira;
static TimeScale scale(const std::string& s)
{
    return s == "UTC" ? TimeScale::UTC : s == "TAI" ? TimeScale::TAI : s == "TT" ? TimeScale::TT : TimeScale::TDB;
}
static Time plus(const Time& t, const std::string& u, double n)
{
    if (u == "ms") return t + units::Millisecond(n);
    if (u == "s") return t + units::Second(n);
    if (u == "min") return t + units::Minute(n);
    if (u == "h") return t + units::Hour(n);
    return t + units::Day(n);
}
static units::Second lasting(const std::string& u, double n)
{
    if (u == "ms") return units::Millisecond(n);
    if (u == "s") return units::Second(n);
    if (u == "min") return units::Minute(n);
    if (u == "h") return units::Hour(n);
    return units::Day(n);
}
int main()
{
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    std::cerr.rdbuf(nullptr);
    vfspice::st.lsk = true;
    vfspice::st.action = "RETURN";
    spice::lsk_loaded = true;
    std::vector<Time> t(5);
    Interval span{Time(), Time()};
    return vf::serve([&](const J& c) -> J {
        std::string op = c["op"];
        J r = J::object();
        if (op == "reset") {
            t.assign(5, Time());
            span = Interval{Time(), Time()};
        } else if (op == "text") {
            char b[64];
            long ms = c["ms"], s = ms / 1000;
            int n = c["form"] == "doy" ? std::snprintf(b, sizeof b, "%04ld-%03ld", c["y"].get<long>(), c["doy"].get<long>())
                                       : std::snprintf(b, sizeof b, "%04ld-%02ld-%02ld", c["y"].get<long>(), c["m"].get<long>(), c["d"].get<long>());
            std::snprintf(b + n, sizeof b - n, "T%02ld:%02ld:%02ld.%03ld", s / 3600, s / 60 % 60, s % 60, ms % 1000);
            t[c["r"]] = Time(b);
        } else if (op == "jd") {
            t[c["r"]] = Time::from_julian_date(2451545.0 + c["d"].get<double>() + c["ms"].get<double>() / 86400000.0, scale(c["scale"]));
        } else if (op == "mjd") {
            t[c["r"]] = Time::from_modified_julian_date(51544.5 + c["d"].get<double>() + c["ms"].get<double>() / 86400000.0, scale(c["scale"]));
        } else if (op == "et") {
            double et = c["d"].get<double>() * 86400.0 + c["ms"].get<double>() / 1000.0;
            t[c["r"]] = c["long"].get<bool>() ? Time::from_ephemeris_time(et) : Time::from_et(et);
        } else if (op == "plus") {
            Time was = t[c["r"]], now = plus(was, c["u"], c["n"].get<double>());
            r["r"] = (now - was).to_si() * 1000;
            t[c["q"]] = now;
        } else if (op == "copy") {
            t[c["q"]] = t[c["r"]];
        } else if (op == "bad") {
            r["r"] = vf::guarded([&]() -> J {
                t[c["r"]] = Time(c["text"].get<std::string>());
                return "ok";
            });
        } else if (op == "see") {
            const Time& x = t[c["r"]];
            J at = J::object();
            for (const char* s : {"UTC", "TAI", "TT", "TDB"}) {
                double jd = x.to_julian_date(scale(s)), mjd = x.to_modified_julian_date(scale(s)), y = x.julian_years_since_j2000(scale(s));
                at[s] = {(jd - 2451545.0) * 86400000.0, (mjd - 51544.5) * 86400000.0, y * 365.25 * 86400000.0};
            }
            std::string iso = x.to_iso_8601();
            J back = vf::guarded([&]() -> J { return (Time(iso.substr(0, iso.size() - 1)) - x).to_si() * 1000; });
            r["r"] = {{"at", at}, {"et", x.et() * 1000}, {"et2", x.ephemeris_time() * 1000}, {"iso", iso}, {"back", back}, {"text", x.to_utc_string()},
                      {"own", x.to_utc_string("DD/MM/YYYY HR:MN:SC.### ::RND")}, {"own2", x.to_utc_string("YYYY-MM-DD HR:MN:SC.### ::RND ::UTC")},
                      {"defaults", x.to_julian_date() == x.to_julian_date(TimeScale::TDB) && x.to_modified_julian_date() == x.to_modified_julian_date(TimeScale::TDB) &&
                                       x.julian_years_since_j2000() == x.julian_years_since_j2000(TimeScale::TT)}};
        } else if (op == "compare") {
            const Time &a = t[c["a"]], &b = t[c["b"]];
            r["r"] = {{"diff", (a - b).to_si() * 1000}, {"lt", a < b}, {"le", a <= b}, {"gt", a > b}, {"ge", a >= b}, {"eq", a == b}, {"ne", a != b}};
        } else if (op == "interval") {
            std::string how = c["how"];
            units::Second n = lasting(c["u"], c["n"].get<double>());
            if (how == "start") span = Interval::from_start(t[c["a"]], n);
            else if (how == "centre") span = Interval::from_centered(t[c["a"]], n);
            else if (c["n"].get<long>() % 2) span = Interval(t[c["a"]], t[c["b"]]);
            else span = Interval::from_bounds(t[c["a"]], t[c["b"]]);
            r["r"] = {{"start", span.start.et() * 1000}, {"end", span.end.et() * 1000}, {"long", span.duration().to_si() * 1000}, {"mid", span.center().et() * 1000}};
        } else if (op == "samples") {
            r["r"] = vf::guarded([&]() -> J {
                std::vector<Time> s = span.samples(c["k"].get<std::size_t>());
                J at = J::array();
                for (const Time& x : s) at.push_back((x - span.start).to_si() * 1000);
                return J{{"at", at}, {"long", span.duration().to_si() * 1000}};
            });
        }
        return r;
    });
}
