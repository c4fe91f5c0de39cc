// Replays MediumNest behaviours into MediumStack.
#include "common.hpp"
#include "huira/volumes/medium_stack.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/volumes/density/constant_density_field.hpp"
#include "huira/volumes/scattering/isotropic_scatter.hpp"
using namespace huira;
using M = Medium<RGB>;
using P = Primitive<RGB>;
static std::vector<std::shared_ptr<M>> media;
static std::vector<std::unique_ptr<P>> bodies;
static MediumStack<RGB> st[3];
static void setup()
{
    auto mk = [] {
        return std::make_shared<M>(std::make_shared<ConstantDensityField<RGB>>(RGB{1.f}, RGB{0.5f}),
                                   std::make_shared<IsotropicPhaseFunction<RGB>>());
    };
    for (int b = 0; b <= 16; ++b) {
        media.push_back(mk());
        bodies.push_back(std::make_unique<P>());
        if (b >= 2) bodies[b]->medium = b <= 3 ? media[2] : media[b];
    }
}
static int name(const M* m)
{
    if (!m) return 0;
    for (int b = 2; b <= 16; ++b) if (media[b].get() == m) return b;
    return -1;
}
static J handle(const J& c)
{
    std::string op = c["op"];
    J a = J::object();
    if (op == "reset") { st[1] = st[2] = MediumStack<RGB>{}; return a; }
    if (op == "cap") { a["r"] = MediumStack<RGB>::CAPACITY; return a; }
    int k = c["k"];
    if (op == "cross") { int b = c["b"]; st[k].toggle(b ? bodies[b].get() : nullptr); }
    else if (op == "split") st[k] = st[3 - k];
    for (int i = 1; i <= 2; ++i)
        a["o"].push_back({{"top", name(st[i].top())}, {"empty", st[i].is_empty()}, {"size", st[i].size()}});
    return a;
}
int main() { setup(); return vf::serve(handle); }
