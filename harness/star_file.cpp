// Replays StarFile behaviours into StarCatalog; built with address and UB checking.
#include "common.hpp"
#include "huira/huira.hpp"
using namespace huira;
static const float inf = std::numeric_limits<float>::infinity();
static const float fnan = std::numeric_limits<float>::quiet_NaN();
static float mag(int m)
{
    if (m == 99999) return fnan;
    if (m == 9999) return inf;
    if (m == -9999) return -inf;
    return static_cast<float>(m) * 0.1f - 1.5f;
}
static StarData star(int t, int m)
{
    StarData s{};
    s.id = pack_tycho2_id(static_cast<std::uint16_t>((t * 137) % 9537 + 1), static_cast<std::uint16_t>((t * 911) % 12121 + 1), static_cast<std::uint8_t>(t % 3 + 1));
    s.RA = t * 0.0012345678;
    s.DEC = t % 7 == 0 ? -0.0 : -t * 0.00087654321;
    s.pmRA = t * 1.5f;
    s.pmDEC = -t * 0.37f;
    s.temperature = t % 5 == 0 ? fnan : 3000.f + t * 1.25f;
    s.solid_angle = t % 5 == 1 ? std::numeric_limits<double>::quiet_NaN() : t * 1.0e-19;
    s.visual_magnitude = mag(m);
    return s;
}
template <typename T> static bool bits(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
static bool same(const StarData& a, const StarData& b)
{
    return a.id == b.id && bits(a.RA, b.RA) && bits(a.DEC, b.DEC) && bits(a.pmRA, b.pmRA) && bits(a.pmDEC, b.pmDEC) &&
           bits(a.temperature, b.temperature) && bits(a.solid_angle, b.solid_angle) && bits(a.visual_magnitude, b.visual_magnitude);
}
static std::map<std::uint64_t, int> token;
static std::map<std::uint32_t, int> rank_of;
static J show(const StarData& s)
{
    auto t = token.find(s.id);
    std::uint32_t b;
    std::memcpy(&b, &s.visual_magnitude, 4);
    auto m = rank_of.find(b);
    if (t == token.end() || m == rank_of.end() || !same(s, star(t->second, m->second))) return "unknown star";
    return {{"t", t->second}, {"m", m->second}};
}
static J list(const StarCatalog& c)
{
    J l = J::array();
    for (const auto& s : c) l.push_back(show(s));
    if (l.size() != c.size() || c.empty() != l.empty() || c.get_star_data().size() != c.size()) return "sizes disagree";
    for (std::size_t i = 0; i < c.size(); ++i) if (show(c[i]) != l[i]) return "index disagrees";
    return l;
}
// stars of equal magnitude by token: their order is not promised
static void settle(StarCatalog& c)
{
    for (std::size_t i = 0; i < c.size();) {
        std::size_t e = i + 1;
        auto eq = [&](std::size_t k) { float a = c[i].visual_magnitude, b = c[k].visual_magnitude; return a == b || (std::isnan(a) && std::isnan(b)); };
        while (e < c.size() && eq(e)) ++e;
        std::sort(c.begin() + i, c.begin() + e, [](const StarData& a, const StarData& b) { return token[a.id] < token[b.id]; });
        i = e;
    }
}
int main()
{
    Logger::enable_console_warning(false);
    for (int t = 0; t < 3000; ++t) token[star(t, 0).id] = t;
    for (int m : {99999, 9999, -9999}) { float f = mag(m); std::uint32_t b; std::memcpy(&b, &f, 4); rank_of[b] = m; }
    for (int m = -200; m < 400; ++m) { float f = mag(m); std::uint32_t b; std::memcpy(&b, &f, 4); rank_of[b] = m; }
    fs::path dir = fs::current_path() / ("stars" + std::to_string(getpid())), file = dir / "cat.hrsc";
    fs::create_directories(dir / "folder.hrsc");
    StarCatalog cat;
    int type = 0;
    int rc = vf::serve([&](const J& c) {
        J a = J::object();
        std::string op = c["op"];
        auto guard = [&](auto f) { try { return J(f()); } catch (const std::exception&) { return J("error"); } };
        if (op == "reset") { cat = StarCatalog(); type = 0; fs::remove(file); }
        else if (op == "add") { cat.add_star(star(c["t"], c["m"])); }
        else if (op == "type") { type = c["x"]; cat.set_catalog_type(static_cast<CatalogType>(type)); }
        else if (op == "sort") { cat.sort(); settle(cat); }
        else if (op == "clip") cat.clip_by_magnitude(mag(c["l"]));
        else if (op == "fresh") cat = StarCatalog(std::vector<StarData>{});
        else if (op == "write") a["r"] = guard([&] { cat.write_star_data(file); return "ok"; });
        else if (op == "write_fails") {
            std::string w = c["where"];
            fs::path p = w == "full" ? fs::path("/dev/full") : w == "folder" ? dir / "folder.hrsc" : dir / "none" / "cat.hrsc";
            a["r"] = guard([&] { cat.write_star_data(p); return "ok"; });
        } else if (op == "read" || op == "load") {
            a["r"] = guard([&]() -> J {
                StarCatalog r = c["l"] == 9999 ? StarCatalog::read_star_data(file) : StarCatalog::read_star_data(file, mag(c["l"]));
                settle(r);
                if (op == "load") { cat = r; return "ok"; }
                int x = -1;
                r.add_star(star(1, 0));
                std::string id = r.get_star_id(r.size() - 1);
                // the type is only visible through the identifiers, and by writing it again
                fs::path f2 = dir / "again.hrsc";
                StarCatalog r2 = r;
                r2.write_star_data(f2);
                std::ifstream in(f2, std::ios::binary);
                HrscHeader h{};
                in.read(reinterpret_cast<char*>(&h), sizeof h);
                x = static_cast<int>(h.catalog_type);
                if ((id.rfind("TYC ", 0) == 0) != (x == 1)) return "type lost";
                J l = list(r);
                if (!l.is_array()) return l;
                l.erase(l.size() - 1);
                return {{"type", x}, {"stars", l}};
            });
        } else if (op == "damage") {
            std::string how = c["how"];
            long k = c["k"], n = static_cast<long>(fs::file_size(file));
            auto poke = [&](long at, auto v) { std::fstream f(file, std::ios::in | std::ios::out | std::ios::binary); f.seekp(at); f.write(reinterpret_cast<const char*>(&v), sizeof v); };
            if (how == "truncate") fs::resize_file(file, std::max(0L, n - 1 - k % n));
            else if (how == "append") fs::resize_file(file, n + 1 + k);
            else if (how == "magic") poke(k % 4, char('h' + k % 3));
            else if (how == "version") poke(offsetof(HrscHeader, version), std::uint8_t(k == 1 ? 0 : k));
            else if (how == "count") {
                std::uint64_t have = static_cast<std::uint64_t>(n - sizeof(HrscHeader)) / sizeof(StarData);
                const std::uint64_t more[] = {1, 2, 1000, 1ull << 32, 1ull << 40, 1ull << 58, 1ull << 61, 1ull << 62, 1ull << 63, ~0ull};
                poke(offsetof(HrscHeader, star_count), k >= 10 ? (have ? have - 1 : 7) : have + more[k]);
            }
        } else if (op == "remove") fs::remove(file);
        else if (op == "read_folder") a["r"] = guard([&] { StarCatalog::read_star_data(dir / "folder.hrsc"); return "ok"; });
        else if (op == "name") {
            int i = c["i"];
            a["r"] = guard([&]() -> J {
                std::string s = cat.get_star_id(static_cast<std::size_t>(i));
                int x, y, z, n = 0;
                if (std::sscanf(s.c_str(), "TYC %d-%d-%d%n", &x, &y, &z, &n) == 3 && n == int(s.size())) return {"TYC", x, y, z};
                if (s == std::to_string(cat[static_cast<std::size_t>(i)].id)) return J::array({"number"});
                return s;
            });
        }
        a["o"] = {{"stars", list(cat)}};
        return a;
    });
    fs::remove_all(dir);
    return rc;
}
