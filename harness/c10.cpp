// C10: walking a segment over a grid
#include "gx.hpp"
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/fast_voxel_grid_traversal.hpp>
#include <geometrix/algorithm/orientation_grid_traversal.hpp>
#include <geometrix/algorithm/bresenham_grid_traversal.hpp>
using namespace vh; using namespace gx;
using GT = grid_traits<double>;
struct Stop {};
using C = std::vector<std::pair<long, long>>;
struct Collect { C& c; void operator()(unsigned i, unsigned j) { if (c.size() > 20000) throw std::runtime_error("endless"); c.push_back({ (long)i > 100000 ? -1 : (long)i, (long)j > 100000 ? -1 : (long)j }); } };
struct CollectN { C& c; std::size_t n; bool operator()(unsigned i, unsigned j) { if (c.size() > 20000) throw std::runtime_error("endless"); c.push_back({ (long)i, (long)j }); return c.size() < n; } };
struct G { long x0, x1, y0, y1, w; };
static void walk(const G& q, P a, P b, int stop, const Frame& f) {
    GT g(f.x(q.x0), f.x(q.x1), f.y(q.y0), f.y(q.y1), f.len(q.w)); seg s(mk(a, f), mk(b, f));
    std::string gs = js(std::vector<long>{ q.x0, q.x1, q.y0, q.y1, q.w });
    record("voxel", arr(Raw{ gs }, a, b, stop), [&] { C c, d; fast_voxel_grid_traversal(g, s, Collect{ c }, cmp()); stoppable_fast_voxel_grid_traversal(g, s, CollectN{ d, (std::size_t)stop }, cmp()); return arr(c, d); });
    record("orient", arr(Raw{ gs }, a, b), [&] { C c; orientation_segment_traversal(g, s, Collect{ c }, cmp()); return js(c); });
    auto in = [&](P p) { return p.x >= q.x0 && p.x <= q.x1 && p.y >= q.y0 && p.y <= q.y1; };
    if (in(a) && in(b)) record("bres", arr(Raw{ gs }, a, b), [&] { C c; Collect v{ c }; bresenham_segment_traversal(g, s, v); return js(c); });
}
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 3; far_ok() = true;
    const bool th = opts().thorough;
    // every segment between half-cell lattice points of a 3x2-cell grid, one lattice step beyond its border
    std::uint64_t k = 0; G q{ 0, 5, 0, 3, 2 };
    for (int ax = -1; ax <= 6; ++ax) for (int ay = -1; ay <= 4; ++ay) for (int bx = -1; bx <= 6; ++bx) for (int by = -1; by <= 4; ++by) if (mine(k++) && (th || k % 2)) walk(q, { ax, ay }, { bx, by }, k % 4 + 1, frames()[k % 5]);
    Rng r = stream("c10");
    for (int i = 0, c = th ? 30000 : 2500; i < c; ++i) {
        G g; g.w = r.pick(std::vector<int>{ 1, 2, 4, 8 }); int nx = r.in(1, 9), ny = r.in(1, 9); g.x0 = r.in(-9, 9); g.y0 = r.in(-9, 9);
        g.x1 = g.x0 + std::max(1L, nx * g.w - r.in(0, g.w - 1)); g.y1 = g.y0 + std::max(1L, ny * g.w - r.in(0, g.w - 1));
        int m = r.pick(std::vector<int>{ 0, 0, 0, 3, 15 });
        auto pt_ = [&] { P p; p.x = r.in(g.x0 - m, g.x1 + m); p.y = r.in(g.y0 - m, g.y1 + m); return p; };
        P a = pt_(), b = pt_(); int z = r.in(0, 9);
        if (z == 0) b.x = a.x; if (z == 1) b.y = a.y; if (z == 2) { int t = r.in(-6, 6); b = { a.x + t, a.y + (r.chance(50) ? t : -t) }; } if (z == 3) b = a;
        walk(g, a, b, r.in(1, 12), rnd_frame(r));
    }
    // long walks over large grids
    Rng u = stream("long");
    for (int i = 0, c = th ? 1500 : 130; i < c; ++i) {
        G g; g.w = u.pick(std::vector<int>{ 1, 1, 2, 8 }); int nx = u.in(1, u.chance(50) ? 900 : 60), ny = u.in(1, u.chance(50) ? 900 : 60); g.x0 = u.in(-900, 900); g.y0 = u.in(-900, 900);
        g.x1 = g.x0 + nx * g.w; g.y1 = g.y0 + ny * g.w;
        int m = u.pick(std::vector<int>{ 0, 0, 0, 7, 300 });
        auto pt_ = [&] { P p; p.x = u.in(g.x0 - m, g.x1 + m); p.y = u.in(g.y0 - m, g.y1 + m); return p; };
        P a = pt_(), b = pt_(); int z = u.in(0, 9);
        if (z == 0) b.x = a.x; if (z == 1) b.y = a.y; if (z == 2) { int t = u.in(-600, 600); b = { a.x + t, a.y + (u.chance(50) ? t : -t) }; }
        if (z == 3) b = { a.x + u.in(-500, 500), a.y + u.in(-2, 2) }; if (z == 4) b = { a.x + u.in(-2, 2), a.y + u.in(-500, 500) };
        walk(g, a, b, u.in(1, 600), rnd_frame(u));
    }
    return end();
}
