// Replays Materials behaviours into materials of a scene, for three-band colours.
#include "common.hpp"
#include <map>
#include "huira/huira.hpp"
using namespace huira;
using S = RGB;

struct Rig {
    Scene<S> scene;
    std::map<std::string, BSDFHandle<S>> ways;
    std::unique_ptr<MaterialHandle<S>> m;
    std::map<std::string, TextureHandle<S>> colour;
    std::map<std::string, TextureHandle<float>> grey;
    std::map<std::string, TextureHandle<Vec3<float>>> dirs;
    Rig()
    {
        ways.emplace("cook_torrance", scene.new_bsdf_cook_torrance());
        ways.emplace("lambertian", scene.new_bsdf_lambertian());
        ways.emplace("oren_nayar", scene.new_bsdf_oren_nayar());
        ways.emplace("hapke", scene.new_bsdf_hapke(1.f, .1f, .1f, .1f));
        ways.emplace("mcewen", scene.new_bsdf_mcewen());
        ways.emplace("lommel_seeliger", scene.new_bsdf_lommel_seeliger());
    }
    void reset() { m = std::make_unique<MaterialHandle<S>>(scene.new_material(ways.at("cook_torrance"))); }
    static float e(const J& j) { return j.get<float>() / 8.f; }
    static S col(const J& j) { return S{e(j[0]), e(j[1]), e(j[2])}; }
    static Vec3<float> dir(const J& j) { return {j[0].get<float>(), j[1].get<float>(), j[2].get<float>()}; }
    // three pixels wide, so that u = 0 and u = 1/2 fall on the first two
    TextureHandle<S> tex_colour(Scene<S>& s, const J& p)
    {
        Image<S> i(3, 1, S{.3f});
        i[0] = col(p[0]), i[1] = col(p[1]);
        return s.add_texture(std::move(i));
    }
    TextureHandle<float> tex_grey(Scene<S>& s, const J& p)
    {
        Image<float> i(3, 1, .3f);
        i[0] = e(p[0]), i[1] = e(p[1]);
        return s.add_texture(std::move(i));
    }
    TextureHandle<Vec3<float>> tex_dir(Scene<S>& s, const J& p, bool coded)
    {
        Image<Vec3<float>> i(3, 1, Vec3<float>{.5f, .5f, 1.f});
        Image<RGB> k(3, 1, RGB{.5f, .5f, 1.f});
        for (std::size_t n = 0; n < 2; ++n) {
            i[n] = glm::normalize(dir(p[n])) * .5f + Vec3<float>{.5f};
            k[n] = RGB{i[n].x, i[n].y, i[n].z};
        }
        return coded ? s.add_normal_texture(std::move(k)) : s.add_normal_texture(std::move(i));
    }
    void put(const std::string& c, const J& a, Scene<S>& s)
    {
        const J& p = a["px"];
        std::string key = p.dump();
        bool mine = &s == &scene;
        auto tc = [&] { if (!mine) return tex_colour(s, p); if (!colour.count(key)) colour.emplace(key, tex_colour(s, p)); return colour.at(key); };
        auto tg = [&] { if (!mine) return tex_grey(s, p); if (!grey.count(key)) grey.emplace(key, tex_grey(s, p)); return grey.at(key); };
        auto td = [&] { if (!mine) return tex_dir(s, p, false); if (!dirs.count(key)) dirs.emplace(key, tex_dir(s, p, dirs.size() % 2)); return dirs.at(key); };
        apply(c, tc, tg, td);
    }
    template <class C, class G, class D> void apply(const std::string& c, C tc, G tg, D td)
    {
        if (c == "albedo") m->set_albedo_image(tc());
        else if (c == "transmission") m->set_transmission_image(tc());
        else if (c == "emissive") m->set_emissive_image(tc());
        else if (c == "alpha") m->set_alpha_image(tg());
        else if (c == "metallic") m->set_metallic_image(tg());
        else if (c == "roughness") m->set_roughness_image(tg());
        else if (c == "normal") m->set_normal_image(td());
        else throw std::logic_error("channel");
    }
    void dead(const std::string& c)
    {
        static auto gone = [] {
            Scene<S> s;
            return std::make_tuple(s.add_texture(Image<S>(1, 1, S{.25f})), s.add_texture(Image<float>(1, 1, .25f)),
                                   s.add_texture(Image<Vec3<float>>(1, 1, Vec3<float>{1.f, 0.f, 0.f})));
        }();
        apply(c, [&] { return std::get<0>(gone); }, [&] { return std::get<1>(gone); }, [&] { return std::get<2>(gone); });
    }
    void factor(const std::string& c, const J& f)
    {
        if (c == "albedo") m->set_albedo_factor(col(f));
        else if (c == "transmission") m->set_transmission_factor(col(f));
        else if (c == "emissive") m->set_emissive_factor(col(f));
        else if (c == "alpha") m->set_alpha_factor(e(f));
        else if (c == "metallic") m->set_metallic_factor(e(f));
        else if (c == "roughness") m->set_roughness_factor(e(f));
        else m->set_normal_factor(e(f));
    }
    void usual(const std::string& c)
    {
        if (c == "albedo") m->reset_albedo();
        else if (c == "transmission") m->reset_transmission();
        else if (c == "emissive") m->reset_emissive();
        else if (c == "alpha") m->reset_alpha();
        else if (c == "metallic") m->reset_metallic();
        else if (c == "roughness") m->reset_roughness();
        else m->reset_normal();
    }
    J step(const J& c)
    {
        std::string op = c["op"], ch = c.value("c", "");
        J r = "ok";
        try {
            if (op == "pic") put(ch, c, scene);
            else if (op == "factor") factor(ch, c["f"]);
            else if (op == "default") usual(ch);
            else if (op == "bsdf") m->set_bsdf(ways.at(c["b"]).get());
            else if (op == "refused") {
                if (ch == "bsdf") m->set_bsdf(nullptr);
                else dead(ch);
            }
        } catch (const std::runtime_error&) {
            r = "error";
        }
        J o = {{"a", look(0.f)}, {"b", look(.5f)}, {"has_alpha", m->get()->has_alpha()}};
        return {{"r", r}, {"o", o}};
    }
    J look(float u)
    {
        Interaction<S> i{};
        i.normal_g = i.normal_s = {0, 0, 1};
        i.tangent = {1, 0, 0};
        i.bitangent = {0, 1, 0};
        i.uv = {u, 0.f};
        i.wo = {0, 0, 1};
        i.vertex_albedo = S{1.f, .5f, .25f};
        auto x = m->get()->evaluate(i);
        auto v = [](const Vec3<float>& q) { return J{q.x, q.y, q.z}; };
        auto s = [](const S& q) { return J{q[0] * 64., q[1] * 64., q[2] * 64.}; };
        J al = s(x.params.albedo);
        for (auto& k : al) k = k.get<double>() * 8;
        return {{"albedo", al}, {"alpha", {x.params.opacity * 64.}}, {"metallic", {x.params.metallic * 64.}}, {"roughness", {x.params.roughness * 64.}},
                {"transmission", s(x.params.transmission)}, {"emissive", s(x.params.emission)}, {"normal", v(x.isect.normal_s)},
                {"t", v(x.isect.tangent)}, {"b", v(x.isect.bitangent)}};
    }
};
int main()
{
    Logger::enable_console_warning(false);
    Rig rig;
    return vf::serve([&](const J& c) {
        if (c["op"] == "reset") { rig.reset(); return J{{"o", 0}}; }
        return rig.step(c);
    });
}
