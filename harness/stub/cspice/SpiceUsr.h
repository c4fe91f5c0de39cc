/* Stand-in for NAIF CSPICE, which this sandbox does not have: the entry points huira uses, with
 * CSPICE's documented error protocol (failed/reset/getmsg, RETURN mode in which a routine called
 * while an error is pending returns at once) and simple deterministic answers. Harnesses script it
 * through namespace vfspice. */
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>

typedef char SpiceChar;
typedef double SpiceDouble;
typedef int SpiceInt;
typedef int SpiceBoolean;
typedef const char ConstSpiceChar;
typedef const double ConstSpiceDouble;
#define SPICETRUE 1
#define SPICEFALSE 0

namespace vfspice {
struct State {
    bool failed = false;
    std::string smsg, lmsg, action = "ABORT", prt = "SHORT, LONG";
    bool lsk = false;
    std::vector<std::string> loaded;               // as resolved against the working directory
    std::map<std::string, int> calls;
    std::string fail_on;                           // entry point that fails next
    std::string fail_msg;
    std::function<void(const char*)> on_enter;     // runs on every entry (to dawdle in)
    int printed = 0;                               // messages an enabled error device would show
    // position and velocity (km, km/s) of a target at et
    std::function<void(const std::string&, double, double*)> spk;
    // angle = rate*et + phase about z after a fixed tilt about x
    std::map<std::string, std::array<double, 3>> frames; // name -> rate, phase, tilt
};
inline State st;
inline void error(const std::string& s, const std::string& l)
{
    if (st.failed) return;
    if (st.action == "ABORT") { std::fprintf(stderr, "CSPICE would abort: %s\n", s.c_str()); _exit(77); }
    if (st.prt.find("NONE") == std::string::npos) ++st.printed;
    st.failed = true;
    st.smsg = s;
    st.lmsg = l;
}
// true if the routine has to return at once
inline bool enter(const char* fn)
{
    ++st.calls[fn];
    if (st.on_enter) st.on_enter(fn);
    if (st.failed && st.action == "RETURN") return true;
    if (st.fail_on == fn) {
        st.fail_on.clear();
        error("SPICE(INJECTED)", st.fail_msg);
        return true;
    }
    return false;
}
inline long days_from_civil(long y, int m, int d)
{
    y -= m <= 2;
    const long era = (y >= 0 ? y : y - 399) / 400;
    const unsigned yoe = static_cast<unsigned>(y - era * 400);
    const unsigned doy = (153u * static_cast<unsigned>(m + (m > 2 ? -3 : 9)) + 2u) / 5u + static_cast<unsigned>(d) - 1u;
    const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + static_cast<long>(doe) - 719468;
}
inline void civil_from_days(long z, long& y, int& m, int& d)
{
    z += 719468;
    const long era = (z >= 0 ? z : z - 146096) / 146097;
    const unsigned doe = static_cast<unsigned>(z - era * 146097);
    const unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    y = static_cast<long>(yoe) + era * 400;
    const unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    const unsigned mp = (5 * doy + 2) / 153;
    d = static_cast<int>(doy - (153 * mp + 2) / 5 + 1);
    m = static_cast<int>(mp < 10 ? mp + 3 : mp - 9);
    y += m <= 2;
}
// TT - TAI, TDB - TT and leap seconds, in the form the leap-second kernel uses
constexpr double DELTA_T_A = 32.184, K = 1.657e-3, EB = 1.671e-2, M0 = 6.239996, M1 = 1.99096871e-7;
inline double tdb_minus_tt(double t) { double m = M0 + M1 * t; return K * std::sin(m + EB * std::sin(m)); }
struct Leap { long y; int m; int count; };
inline int leaps(double utc) // utc: seconds past J2000 of UTC count
{
    static const Leap tab[] = {{1972, 1, 10}, {1980, 1, 19}, {1990, 1, 25}, {1999, 1, 32}, {2006, 1, 33},
                               {2009, 1, 34}, {2012, 7, 35}, {2015, 7, 36}, {2017, 1, 37}};
    int n = 9;
    for (const Leap& l : tab) if (utc >= double(days_from_civil(l.y, l.m, 1) - 10957) * 86400.0 - 43200.0) n = l.count;
    return n;
}
inline double utc_to_et(double utc) { double tt = utc + leaps(utc) + DELTA_T_A; return tt + tdb_minus_tt(tt); }
inline double tt_to_et(double tt) { return tt + tdb_minus_tt(tt); }
inline double et_to_tt(double et) { double tt = et; for (int i = 0; i < 4; ++i) tt = et - tdb_minus_tt(tt); return tt; }
inline double et_to_utc(double et)
{
    double tt = et_to_tt(et), u = tt - DELTA_T_A - 37;
    for (int i = 0; i < 3; ++i) u = tt - DELTA_T_A - leaps(u);
    return u;
}
inline void frame_matrix(const std::string& name, double et, double r[3][3], double dr[3][3])
{
    double rate = 0, ph = 0, tilt = 0;
    auto it = st.frames.find(name);
    if (it != st.frames.end()) { rate = it->second[0]; ph = it->second[1]; tilt = it->second[2]; }
    double a = rate * et + ph, c = std::cos(a), s = std::sin(a), C = std::cos(tilt), S = std::sin(tilt);
    // from J2000 to the frame: [a]_3 [tilt]_1
    double z[3][3] = {{c, s, 0}, {-s, c, 0}, {0, 0, 1}};
    double dz[3][3] = {{-s * rate, c * rate, 0}, {-c * rate, -s * rate, 0}, {0, 0, 0}};
    double x[3][3] = {{1, 0, 0}, {0, C, S}, {0, -S, C}};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        r[i][j] = dr[i][j] = 0;
        for (int k = 0; k < 3; ++k) { r[i][j] += z[i][k] * x[k][j]; dr[i][j] += dz[i][k] * x[k][j]; }
    }
}
inline bool known_frame(const std::string& f) { return f == "J2000" || st.frames.count(f) != 0; }
inline void state_matrix(const char* from, const char* to, double et, double x[6][6])
{
    // from -> J2000 -> to
    double a[3][3], da[3][3], b[3][3], db[3][3];
    frame_matrix(from, et, a, da);
    frame_matrix(to, et, b, db);
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) x[i][j] = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) {
        double r = b[i][k] * a[j][k], dr = db[i][k] * a[j][k] + b[i][k] * da[j][k];
        x[i][j] += r;
        x[i + 3][j + 3] += r;
        x[i + 3][j] += dr;
    }
}
} // namespace vfspice

extern "C" {
inline void furnsh_c(ConstSpiceChar* file)
{
    if (vfspice::enter("furnsh")) return;
    std::ifstream f(file);
    std::string head;
    if (!f || !std::filesystem::is_regular_file(file)) { vfspice::error("SPICE(NOSUCHFILE)", std::string("The file ") + file + " does not exist"); return; }
    std::getline(f, head);
    if (head.rfind("BAD", 0) == 0) { vfspice::error("SPICE(BADKERNEL)", std::string("Unrecognised kernel ") + file); return; }
    if (head.rfind("NOMSG", 0) == 0) { vfspice::error("SPICE(NOMSG)", ""); return; }
    // a meta-kernel names further files relative to the working directory
    if (head.rfind("META", 0) == 0) {
        std::string sub;
        while (std::getline(f, sub)) if (!sub.empty()) {
            furnsh_c(sub.c_str());
            if (vfspice::st.failed) return;
        }
    }
    if (head.rfind("KPL/LSK", 0) == 0) vfspice::st.lsk = true;
    vfspice::st.loaded.push_back(std::filesystem::absolute(file).lexically_normal().string());
}
inline void str2et_c(ConstSpiceChar* s, SpiceDouble* et)
{
    if (vfspice::enter("str2et")) return;
    if (!vfspice::st.lsk) { vfspice::error("SPICE(NOLEAPSECONDS)", "No leapseconds kernel is loaded"); return; }
    long y; int m = 1, d = 1, hh = 0, mi = 0, n = 0; double sec = 0;
    bool ok = false;
    if (std::sscanf(s, "%ld-%2d-%2d%n", &y, &m, &d, &n) == 3 && n >= 8) ok = true;
    else if (std::sscanf(s, "%ld-%3d%n", &y, &d, &n) == 2 && n >= 8) { m = 1; ok = true; }
    if (ok && s[n] == 'T') { int k = 0; ok = std::sscanf(s + n, "T%2d:%2d:%lf%n", &hh, &mi, &sec, &k) == 3 && s[n + k] == 0; }
    else if (ok) ok = s[n] == 0;
    if (!ok || m < 1 || m > 12 || d < 1 || hh > 23 || mi > 59 || sec >= 61) {
        vfspice::error("SPICE(UNPARSEDTIME)", std::string("The input string <") + s + "> does not contain a date and/or time.");
        return;
    }
    double utc = double(vfspice::days_from_civil(y, m, 1) + d - 1 - 10957) * 86400.0 - 43200.0 + hh * 3600.0 + mi * 60.0 + sec;
    *et = vfspice::utc_to_et(utc);
}
inline void deltet_c(SpiceDouble epoch, ConstSpiceChar* eptype, SpiceDouble* delta)
{
    if (vfspice::enter("deltet")) return;
    if (!vfspice::st.lsk) { vfspice::error("SPICE(NOLEAPSECONDS)", "No leapseconds kernel is loaded"); return; }
    std::string t = eptype;
    if (t == "UTC") *delta = vfspice::utc_to_et(epoch) - epoch;
    else if (t == "ET") *delta = epoch - vfspice::et_to_utc(epoch);
    else vfspice::error("SPICE(INVALIDEPOCH)", "Epoch type was " + t);
}
inline SpiceDouble unitim_c(SpiceDouble epoch, ConstSpiceChar* in, ConstSpiceChar* out)
{
    if (vfspice::enter("unitim")) return 0;
    if (!vfspice::st.lsk) { vfspice::error("SPICE(NOLEAPSECONDS)", "No leapseconds kernel is loaded"); return 0; }
    auto is = [](const char* a, std::initializer_list<const char*> l) { for (auto b : l) if (!std::strcmp(a, b)) return true; return false; };
    double et = 0;
    if (is(in, {"TDB", "ET"})) et = epoch;
    else if (is(in, {"TT", "TDT"})) et = vfspice::tt_to_et(epoch);
    else if (is(in, {"TAI"})) et = vfspice::tt_to_et(epoch + vfspice::DELTA_T_A);
    else { vfspice::error("SPICE(BADTIMETYPE)", in); return 0; }
    if (is(out, {"TDB", "ET"})) return et;
    if (is(out, {"TT", "TDT"})) return is(in, {"TT", "TDT"}) ? epoch : vfspice::et_to_tt(et);
    if (is(out, {"TAI"})) return vfspice::et_to_tt(et) - vfspice::DELTA_T_A;
    vfspice::error("SPICE(BADTIMETYPE)", out);
    return 0;
}
inline void timout_c(SpiceDouble et, ConstSpiceChar* pic, SpiceInt lenout, SpiceChar* out)
{
    if (vfspice::enter("timout")) return;
    if (!vfspice::st.lsk) { vfspice::error("SPICE(NOLEAPSECONDS)", "No leapseconds kernel is loaded"); return; }
    std::string p = pic, r;
    bool utc = p.find("::UTC") != std::string::npos, tdb = p.find("::TDB") != std::string::npos;
    double t = tdb ? et : (utc ? vfspice::et_to_utc(et) : et);
    int digits = 0;
    std::size_t h = p.find('.');
    if (h != std::string::npos) while (h + 1 + digits < p.size() && p[h + 1 + digits] == '#') ++digits;
    double scale = std::pow(10.0, digits);
    double total = std::round((t + 43200.0) * scale);        // ::RND
    double day = std::floor(total / (86400.0 * scale));
    double rest = total - day * 86400.0 * scale;
    long y; int m, d;
    vfspice::civil_from_days(static_cast<long>(day) + 10957, y, m, d);
    long whole = static_cast<long>(rest / scale), frac = static_cast<long>(rest - double(whole) * scale);
    char b[32];
    for (std::size_t i = 0; i < p.size();) {
        auto tok = [&](const char* w) { return p.compare(i, std::strlen(w), w) == 0; };
        auto put = [&](const char* f, long v, std::size_t n) { std::snprintf(b, sizeof b, f, v); r += b; i += n; };
        if (tok("YYYY")) put("%04ld", y, 4);
        else if (tok("MM")) put("%02ld", m, 2);
        else if (tok("DD")) put("%02ld", d, 2);
        else if (tok("HR")) put("%02ld", whole / 3600, 2);
        else if (tok("MN")) put("%02ld", whole / 60 % 60, 2);
        else if (tok("SC")) put("%02ld", whole % 60, 2);
        else if (tok("::RND") || tok("::UTC") || tok("::TDB")) { i += 5; while (!r.empty() && r.back() == ' ') r.pop_back(); }
        else if (p[i] == '#') { std::snprintf(b, sizeof b, "%0*ld", digits, frac); r += b; i += digits; }
        else r += p[i++];
    }
    std::snprintf(out, static_cast<std::size_t>(lenout), "%s", r.c_str());
}
inline void spkezr_c(ConstSpiceChar* targ, SpiceDouble et, ConstSpiceChar* ref, ConstSpiceChar*, ConstSpiceChar*, SpiceDouble s[6], SpiceDouble* lt)
{
    if (vfspice::enter("spkezr")) return;
    if (!std::strncmp(targ, "NOBODY", 6)) { vfspice::error("SPICE(IDCODENOTFOUND)", std::string("The target ") + targ + " is not known"); return; }
    if (!vfspice::known_frame(ref)) { vfspice::error("SPICE(UNKNOWNFRAME)", ref); return; }
    for (int i = 0; i < 6; ++i) s[i] = 0;
    if (vfspice::st.spk) vfspice::st.spk(targ, et, s);
    *lt = std::sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2]) / 299792.458;
}
inline void sxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble x[6][6])
{
    if (vfspice::enter("sxform")) return;
    if (!vfspice::known_frame(from) || !vfspice::known_frame(to)) { vfspice::error("SPICE(UNKNOWNFRAME)", std::string(from) + " " + to); return; }
    vfspice::state_matrix(from, to, et, x);
}
inline void pxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble m[3][3])
{
    if (vfspice::enter("pxform")) return;
    if (!vfspice::known_frame(from) || !vfspice::known_frame(to)) { vfspice::error("SPICE(UNKNOWNFRAME)", std::string(from) + " " + to); return; }
    double x[6][6];
    vfspice::state_matrix(from, to, et, x);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = x[i][j];
}
// rotation and angular velocity; the angular velocity is that of the second frame relative to the
// first, in the coordinates of the first (CSPICE's definition)
inline void xf2rav_c(ConstSpiceDouble x[6][6], SpiceDouble r[3][3], SpiceDouble av[3])
{
    if (vfspice::enter("xf2rav")) return;
    double w[3][3]; // -(dR/dt)^T R, the cross-product matrix of -av ... see rav2xf
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        r[i][j] = x[i][j];
        w[i][j] = 0;
        for (int k = 0; k < 3; ++k) w[i][j] += x[k + 3][i] * x[k][j]; // (dR/dt)^T R = [av]x
    }
    av[0] = w[2][1];
    av[1] = w[0][2];
    av[2] = w[1][0];
}
// state at et of an orbit given by periapsis distance, eccentricity, inclination, node, argument of
// periapsis, mean anomaly at epoch, epoch, GM
inline void conics_c(ConstSpiceDouble* e, SpiceDouble et, SpiceDouble s[6])
{
    if (vfspice::enter("conics")) return;
    double rp = e[0], ecc = e[1], mu = e[7];
    if (ecc < 0 || rp <= 0 || mu <= 0) { vfspice::error("SPICE(BADELEMENTS)", "non-physical elements"); return; }
    if (ecc >= 1) { vfspice::error("SPICE(UNSUPPORTED)", "stand-in handles ellipses only"); return; }
    double a = rp / (1 - ecc), n = std::sqrt(mu / (a * a * a)), M = std::remainder(e[5] + n * (et - e[6]), 2 * M_PI), E = M;
    for (int i = 0; i < 60; ++i) E -= (E - ecc * std::sin(E) - M) / (1 - ecc * std::cos(E));
    double c = std::cos(E), si = std::sin(E), q = std::sqrt(1 - ecc * ecc), r = a * (1 - ecc * c);
    double p[2] = {a * (c - ecc), a * q * si}, v[2] = {-a * a * n * si / r, a * a * n * q * c / r};
    double cO = std::cos(e[3]), sO = std::sin(e[3]), ci = std::cos(e[2]), sI = std::sin(e[2]), co = std::cos(e[4]), so = std::sin(e[4]);
    double R[3][2] = {{cO * co - sO * so * ci, -cO * so - sO * co * ci}, {sO * co + cO * so * ci, -sO * so + cO * co * ci}, {so * sI, co * sI}};
    for (int i = 0; i < 3; ++i) {
        s[i] = R[i][0] * p[0] + R[i][1] * p[1];
        s[i + 3] = R[i][0] * v[0] + R[i][1] * v[1];
    }
}
inline SpiceBoolean failed_c() { return vfspice::st.failed; }
inline void reset_c() { vfspice::st.failed = false; vfspice::st.smsg.clear(); vfspice::st.lmsg.clear(); }
inline void getmsg_c(ConstSpiceChar* option, SpiceInt lenout, SpiceChar* msg)
{
    std::string o = option;
    std::snprintf(msg, static_cast<std::size_t>(lenout), "%s", (o == "SHORT" ? vfspice::st.smsg : vfspice::st.lmsg).c_str());
}
inline void erract_c(ConstSpiceChar* op, SpiceInt lenout, SpiceChar* action)
{
    if (!std::strcmp(op, "SET")) vfspice::st.action = action;
    else std::snprintf(action, static_cast<std::size_t>(lenout), "%s", vfspice::st.action.c_str());
}
inline void errprt_c(ConstSpiceChar* op, SpiceInt lenout, SpiceChar* list)
{
    if (!std::strcmp(op, "SET")) vfspice::st.prt = list;
    else std::snprintf(list, static_cast<std::size_t>(lenout), "%s", vfspice::st.prt.c_str());
}
}
