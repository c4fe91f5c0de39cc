// Replays Names behaviours into a scene: every kind of named object, and a second scene beside it.
#include "common.hpp"
#include <map>
#include <regex>
#include "huira/huira.hpp"
using namespace huira;
using S = Scene<RGB>;
static std::unique_ptr<S> sc, other;
static std::string dir;

struct Kind {
    std::string type;
    std::uint64_t base = 0; // id of the first object made from now on
    virtual ~Kind() = default;
    virtual std::string make(const std::string&) = 0;
    virtual int size() = 0;
    virtual std::string name(int i) = 0; // "" when gone
    virtual void rename(int, const std::string&) {}
    virtual void remove(int) {}
    virtual int lookup(const std::string&) { return 0; }
    virtual void again(int, const std::string&) {}
    virtual std::string listed() { return ""; }

    std::string real(const std::string& n) const // the name written D<n>
    {
        if (n.size() > 1 && n[0] == 'D') {
            std::size_t e = n.find('_');
            return type + "." + std::to_string(base + std::stoul(n.substr(1, e - 1)) - 1) + (e == std::string::npos ? "" : n.substr(e));
        }
        return n;
    }
    std::string shown(const std::string& n) const
    {
        if (n.rfind(type + ".", 0) != 0) return n;
        std::string rest = n.substr(type.size() + 1);
        std::size_t e = rest.find('_');
        return "D" + std::to_string(std::stoul(rest.substr(0, e)) - base + 1) + (e == std::string::npos ? "" : rest.substr(e));
    }
};
template <class H> struct Silent : Kind {
    std::vector<H> h;
    std::function<H(const std::string&)> f;
    Silent(std::function<H(const std::string&)> f) : f(f)
    {
        H p = f("hidden probe");
        type = p.type();
        base = p.id() + 1;
    }
    std::string make(const std::string& n) override { h.push_back(f(n)); return h.back().name(); }
    int size() override { return static_cast<int>(h.size()); }
    std::string name(int i) override
    {
        H copy = at(i);
        return copy.valid() ? copy.name() : "";
    }
    H& at(int i) { return h[static_cast<std::size_t>(i - 1)]; }
};
template <class H> struct Full : Silent<H> {
    void (S::*del)(const H&);
    H (S::*get)(const std::string&) const;
    std::function<void()> print;
    std::function<void(S&, H&)> add;
    Full(std::function<H(const std::string&)> f, void (S::*del)(const H&), H (S::*get)(const std::string&) const,
         std::function<void()> print, std::function<void(S&, H&)> add)
        : Silent<H>(f), del(del), get(get), print(print), add(add) {}
    void rename(int i, const std::string& n) override { sc->set_name(this->at(i), n); }
    void remove(int i) override { (sc.get()->*del)(this->at(i)); }
    int lookup(const std::string& n) override
    {
        std::uint64_t id = (sc.get()->*get)(n).id();
        return static_cast<int>(id - this->base + 1);
    }
    void again(int i, const std::string& how) override
    {
        if (how == "named there") other->set_name(this->at(i), "theirs");
        else if (how == "deleted there") (other.get()->*del)(this->at(i));
        else if (!add) throw std::runtime_error("not offered");
        else add(how == "here" ? *sc : *other, this->at(i));
    }
    std::string listed() override
    {
        if (!print) return "";
        std::ostringstream o;
        auto* b = std::cout.rdbuf(o.rdbuf());
        print();
        std::cout.rdbuf(b);
        return o.str();
    }
};
static std::map<std::string, std::unique_ptr<Kind>> kinds;

static void setup(bool with_models, bool with_camera)
{
    kinds.clear();
    sc = std::make_unique<S>();
    other = std::make_unique<S>();
    static VertexBuffer<RGB> v(3);
    v[1].position.x = v[2].position.y = 1;
    auto hidden = sc->add_mesh({0, 1, 2}, v, "hidden");
    auto bsdf = sc->new_bsdf_null("hidden");
    auto field = sc->new_constant_density_field(RGB{1}, RGB{1}, "hidden");
    auto phase = sc->new_isotropic_phase_function("hidden");
    using G = GeometryHandle<RGB>;
    using L = LightHandle<RGB>;
    using U = UnresolvedObjectHandle<RGB>;
    using C = CameraModelHandle<RGB>;
    using P = PrimitiveHandle<RGB>;
    using M = ModelHandle<RGB>;
    using std::make_unique;
    if (with_models) {
        kinds["model"] = make_unique<Full<M>>([](const std::string& n) {
            // a model without a name is called after its file
            auto& k = kinds["model"];
            std::string stem = !k ? "probe" : k->real("D" + std::to_string(k->size() + 1));
            std::string f = dir + "/" + stem + ".obj";
            std::ofstream(f) << "o " << (k ? "part" : "hidden") << "\nv 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n";
            M h = sc->load_model(f, n);
            fs::remove(f);
            return h;
        }, &S::delete_model, &S::get_model, [] { sc->print_models(); }, nullptr);
    } else {
        kinds["geometry"] = make_unique<Full<G>>([](const std::string& n) -> G { return sc->add_ellipsoid(units::Meter(1), units::Meter(1), units::Meter(1), n); },
            &S::delete_geometry, &S::get_geometry, [] { sc->print_meshes(); }, [](S& s, G& g) { s.add_geometry(g.get(), "again"); });
        kinds["primitive"] = make_unique<Full<P>>([hidden](const std::string& n) { return sc->add_primitive(G{hidden.get()}, n); },
            &S::delete_primitive, &S::get_primitive, nullptr, nullptr);
    }
    kinds["light"] = make_unique<Full<L>>([](const std::string& n) { return sc->new_sphere_light(units::Meter(1), units::Watt(1), n); },
        &S::delete_light, &S::get_light, [] { sc->print_lights(); }, [](S& s, L& l) { s.add_light(l.get(), "again"); });
    kinds["unresolved"] = make_unique<Full<U>>([](const std::string& n) { return sc->new_unresolved_object(units::WattsPerMeterSquared(1), n); },
        &S::delete_unresolved_object, &S::get_unresolved_object, [] { sc->print_unresolved_objects(); }, [](S& s, U& u) { s.add_unresolved_object(u.get(), "again"); });
    if (with_camera) kinds["camera"] = make_unique<Full<C>>([](const std::string& n) { return sc->new_camera_model(n); },
        &S::delete_camera_model, &S::get_camera_model, [] { sc->print_camera_models(); }, nullptr);
    kinds["bsdf"] = make_unique<Silent<BSDFHandle<RGB>>>([](const std::string& n) { return sc->new_bsdf_lambertian(n); });
    kinds["material"] = make_unique<Silent<MaterialHandle<RGB>>>([bsdf](const std::string& n) { return sc->new_material(bsdf, n); });
    kinds["spectral"] = make_unique<Silent<TextureHandle<RGB>>>([](const std::string& n) { return sc->add_texture(Image<RGB>(1, 1), n); });
    kinds["mono"] = make_unique<Silent<TextureHandle<float>>>([](const std::string& n) { return sc->add_texture(Image<float>(1, 1), n); });
    kinds["vec3"] = make_unique<Silent<TextureHandle<Vec3<float>>>>([](const std::string& n) { return sc->add_texture(Image<Vec3<float>>(1, 1), n); });
    kinds["density"] = make_unique<Silent<DensityFieldHandle<RGB>>>([](const std::string& n) { return sc->new_constant_density_field(RGB{1}, RGB{1}, n); });
    kinds["phase"] = make_unique<Silent<PhaseFunctionHandle<RGB>>>([](const std::string& n) { return sc->new_isotropic_phase_function(n); });
    kinds["medium"] = make_unique<Silent<MediumHandle<RGB>>>([field, phase](const std::string& n) { return sc->new_medium(field, phase, n); });
}
static J handle(const J& c)
{
    std::string op = c["op"];
    if (op == "reset") {
        setup(c["kinds"].dump().find("model") != std::string::npos, c["kinds"].dump().find("camera") != std::string::npos);
        return J{{"r", "ok"}};
    }
    Kind& k = *kinds.at(c["k"]);
    int i = c["i"];
    J r = "ok";
    try {
        if (op == "make") {
            if (k.size() + 1 != i) r = "misnumbered";
            else r = k.shown(k.make(k.real(c["r"])));
        } else if (op == "rename") {
            k.rename(i, k.real(c["r"]));
            r = k.shown(k.name(i));
        } else if (op == "delete") k.remove(i);
        else if (op == "again") k.again(i, c["how"]);
    } catch (const std::exception&) {
        r = "error";
    }
    J list = J::object(), who = J::object();
    for (auto& n : c["kinds"]) {
        Kind& k = *kinds.at(n);
        J l = J::array(), w = J::array();
        for (int i = 1; i <= k.size(); ++i)
            if (std::string s = k.name(i); !s.empty()) l.push_back(J{i, k.shown(s)});
        for (auto& q : c["look"]) {
            int f = 0;
            try { f = k.lookup(k.real(q)); } catch (const std::exception&) {}
            w.push_back(J{q, f});
        }
        list[n] = l;
        who[n] = w;
        // the printed list: its header counts, and its entries are, the objects of the kind
        std::string out = k.listed();
        if (out.empty()) continue;
        static const std::regex head("(\\d+) loaded"), entry("\\[(\\d+)\\] (.*?)(?= - |\\n|$)");
        std::smatch m;
        J p = J::array();
        int count = 0;
        std::string body = out.substr(out.find('\n') + 1);
        for (std::sregex_iterator it(body.begin(), body.end(), entry), e; it != e; ++it) {
            ++count;
            if ((*it)[2].str().rfind("hidden", 0) != 0) p.push_back(J{static_cast<int>(std::stoul((*it)[1]) - k.base + 1), k.shown((*it)[2])});
        }
        std::sort(p.begin(), p.end());
        if (!std::regex_search(out, m, head) || std::stoi(m[1]) != count) p = "count";
        if (p != l) list[n] = J{"printed", p};
    }
    if (kinds.count("model")) {
        // the node each model brought
        auto& k = static_cast<Full<ModelHandle<RGB>>&>(*kinds.at("model"));
        J l = J::array();
        static const std::regex part("part(_\\d+)?(?=\\n)");
        for (int i = 1; i <= k.size(); ++i) {
            if (!k.at(i).valid()) continue;
            std::ostringstream o;
            auto* b = std::cout.rdbuf(o.rdbuf());
            k.at(i).print_graph();
            std::cout.rdbuf(b);
            std::string s = o.str();
            std::smatch m;
            l.push_back(J{i, std::regex_search(s, m, part) ? m[0].str() : s});
        }
        list["part"] = l;
    }
    for (auto& n : c["silent"]) {
        Kind& k = *kinds.at(n);
        J l = J::array();
        for (int i = 1; i <= k.size(); ++i) l.push_back(J{i, k.shown(k.name(i))});
        list[n] = l;
    }
    return {{"r", r}, {"o", {{"list", list}, {"who", who}}}};
}
int main()
{
    dir = getenv("VF_DIR");
    std::cerr.rdbuf(nullptr);
    Logger::enable_console_warning(false);
    Logger::enable_console_info(false);
    int rc = vf::serve(handle);
    kinds.clear(), sc.reset(), other.reset();
    return rc;
}
