#include <iostream>
#include "huira/huira.hpp"
using namespace huira;
int main()
{
    // a square pyramid around +z with half width 1 at z = 1
    Frustum<RGB> f({{1, 0, 1}, {-1, 0, 1}, {0, 1, 1}, {0, -1, 1}});
    Triangle<RGB> t;
    t.vertices[0].position = {-1.5f, -1.5f, 1};
    t.vertices[1].position = {3, -0.5f, 1};
    t.vertices[2].position = {-0.5f, 3, 1};
    double area = 0;
    for (auto& p : f.clip_triangle(t))
        area += 0.5 * glm::length(glm::cross(p.vertices[1].position - p.vertices[0].position, p.vertices[2].position - p.vertices[0].position));
    // the same by counting a fine grid
    double count = 0;
    const int n = 1500;
    auto side = [&](int i, int j, double x, double y) {
        auto &a = t.vertices[i].position, &b = t.vertices[j].position;
        return (b.x - a.x) * (y - a.y) - (b.y - a.y) * (x - a.x) >= 0;
    };
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            double x = -1 + 2 * (i + .5) / n, y = -1 + 2 * (j + .5) / n;
            count += side(0, 1, x, y) && side(1, 2, x, y) && side(2, 0, x, y);
        }
    count *= 4.0 / n / n;
    std::cout << area << " " << count << "\n";
    return std::abs(area - count) < 0.01 ? 0 : 1;
}
