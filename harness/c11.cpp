// C11: flood fill and polygon rasterising over a grid
#include "gx.hpp"
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <stack>
#include <unordered_map>
#include <boost/container/flat_set.hpp>
#include <boost/optional.hpp>
#include <boost/scope_exit.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/hash_grid_2d.hpp>
#include <geometrix/algorithm/floodfill_grid_traversal.hpp>
using namespace vh; using namespace gx;
using GT = grid_traits<double>;
using FF = floodfill_grid_traversal_helper<GT>;
using C = std::vector<std::pair<long, long>>;
struct Op { long c, i, j, k, l; };
static std::string js(const Op& o) { return vh::arr(o.c, o.i, o.j, o.k, o.l); }
static std::string jops(const std::vector<Op>& v) { std::string s = "["; for (auto& o : v) { if (s.size() > 1) s += ","; s += js(o); } return s + "]"; }
static void fill(int W, int H, const std::vector<Op>& ops, const Frame& f) {
    record("fill", arr(std::vector<int>{ W, H }, Raw{ jops(ops) }), [&] {
        GT t(f.x(0), f.x(2 * W - 1), f.y(0), f.y(2 * H - 1), f.len(2)); FF ff(t); std::vector<Raw> rep; std::vector<long> fin; int k = 0;
        for (auto& o : ops) {
            C c; bool ok = true; ++k; auto v = [&](unsigned i, unsigned j) { c.push_back({ (long)i, (long)j }); };
            if (o.c == 1) ff.get_color(o.i, o.j) = FF::BOUNDARY;
            if (o.c == 2) ok = k % 2 ? ff.traversal((std::uint32_t)o.i, (std::uint32_t)o.j, v) : ff.traversal(pt(f.x(2 * o.i + 1), f.y(2 * o.j + 1)), v);
            if (o.c == 3) { std::vector<P> b{ { 2 * o.i + 1, 2 * o.j + 1 }, { 2 * o.k + 1, 2 * o.j + 1 }, { 2 * o.k + 1, 2 * o.l + 1 }, { 2 * o.i + 1, 2 * o.l + 1 } }; ff.mark_boundary(mkpoly(b, f), v, cmp()); }
            rep.push_back(Raw{ arr(ok, c) });
        }
        const FF& cf = ff;
        for (int i = 0; i < W; ++i) for (int j = 0; j < H; ++j) { auto c = cf.get_color(i, j); fin.push_back(c == FF::BOUNDARY ? -1 : (long)c); }
        return arr(rep, fin);
    });
}
using V = std::vector<P>;
struct G { long x0, x1, y0, y1, w; };
static void raster(const G& q, const V& outer, const std::vector<V>& holes, const Frame& f) {
    record("raster", arr(std::vector<long>{ q.x0, q.x1, q.y0, q.y1, q.w }, outer, holes), [&] {
        GT g(f.x(q.x0), f.x(q.x1), f.y(q.y0), f.y(q.y1), f.len(q.w)); C c, b; std::vector<long> e;
        auto v = [&](unsigned i, unsigned j) { c.push_back({ (long)i, (long)j }); if (c.size() > 100000) throw std::runtime_error("endless"); };
        auto vb = [&](unsigned i, unsigned j) { b.push_back({ (long)i, (long)j }); };
        pgon o = mkpoly(outer, f); std::vector<pgon> hs; for (auto& h : holes) hs.push_back(mkpoly(h, f));
        if (hs.empty()) floodfill_grid_traversal(g, o, v, cmp()); else floodfill_grid_traversal(g, polygon_with_holes<pt>(o, hs), v, cmp());
        FF ff(g); ff.mark_boundary(o, vb, cmp()); for (auto& h : hs) ff.mark_hole_boundary(h, vb, cmp());
        auto x = ff.get_empty_interior(); if (x) e = { (long)x->first, (long)x->second };
        return arr(c, b, e);
    });
}
// every vertical line meets the polygon in one interval
static bool column_convex(const V& v) { int n = v.size(), turns = 0; std::vector<int> s; for (int i = 0; i < n; ++i) { int d = sgn(v[(i + 1) % n].x - v[i].x); if (d) s.push_back(d); } for (std::size_t i = 0; i < s.size(); ++i) turns += s[i] != s[(i + 1) % s.size()]; return turns <= 2; }
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 3; far_ok() = true;
    const bool th = opts().thorough;
    std::uint64_t n = 0;
    for (auto& l : script()) { std::vector<Op> ops; for (std::size_t i = 0; i + 4 < l.size(); i += 5) ops.push_back({ l[i], l[i + 1], l[i + 2], l[i + 3], l[i + 4] }); fill(3, 2, ops, frames()[n++ % 4]); }
    Rng r = stream("c11");
    for (int i = 0, c = th ? 8000 : 800; i < c; ++i) {
        int W = r.in(1, 7), H = r.in(1, 7); std::vector<Op> ops; int d = r.in(0, 60);
        for (int x = 0; x < W; ++x) for (int y = 0; y < H; ++y) if (r.chance(d)) ops.push_back({ 1, x, y, 0, 0 });
        for (int k = r.in(1, 6); k-- > 0;) {
            if (r.chance(12)) ops.push_back({ 1, r.in(0, W - 1), r.in(0, H - 1), 0, 0 });
            else if (r.chance(15)) { int a = r.in(0, W - 1), b = r.in(0, H - 1); ops.push_back({ 3, a, b, r.in(a, W - 1), r.in(b, H - 1) }); }
            else ops.push_back({ 2, r.in(0, W - 1), r.in(0, H - 1), 0, 0 });
        }
        fill(W, H, ops, rnd_frame(r));
    }
    // large grids: open, sparse and dense mazes
    for (int i = 0, c = th ? 600 : 60; i < c; ++i) {
        int W = r.in(1, 40), H = r.in(1, 40); std::vector<Op> ops; int d = r.pick(std::vector<int>{ 0, 3, 20, 36, 45 });
        for (int x = 0; x < W; ++x) for (int y = 0; y < H; ++y) if (r.chance(d)) ops.push_back({ 1, x, y, 0, 0 });
        if (d == 3 && W > 4) for (int x = 1; x < W; x += 2) for (int y = 0; y < H; ++y) if (y != (x / 2 % 2 ? 0 : H - 1)) ops.push_back({ 1, x, y, 0, 0 });
        for (int k = r.in(1, 3); k-- > 0;) ops.push_back({ 2, r.in(0, W - 1), r.in(0, H - 1), 0, 0 });
        fill(W, H, ops, rnd_frame(r));
    }
    // shapes whose columns hold several intervals
    if (opts().shard == 0) {
        V cshape{ { 0, 0 }, { 20, 0 }, { 20, 4 }, { 4, 4 }, { 4, 16 }, { 20, 16 }, { 20, 20 }, { 0, 20 } };
        raster({ -2, 29, -2, 29, 2 }, cshape, {}, frames()[0]);
        V big{ { 0, 0 }, { 28, 0 }, { 28, 28 }, { 0, 28 } }, ch; for (auto p : cshape) ch.push_back({ p.x + 4, p.y + 4 });
        raster({ -2, 29, -2, 29, 2 }, big, { ch }, frames()[0]);
    }
    // a large outline with many small holes, stacked in the same columns and smaller than or as large as a cell
    for (int i = 0, c = th ? 1500 : 120; i < c; ++i) {
        long w = r.pick(std::vector<long>{ 2, 4, 8 }), n = r.in(4, 10); G g{ -w, w * (n + 1) - 1, -w, w * (n + 1) - 1, w };
        long z = w * n - 1 - r.in(0, w - 1); V o{ { 0, 0 }, { z, 0 }, { z, z }, { 0, z } }; if (r.chance(40)) o = { { 0, r.in(0, z / 4) }, { z / 2, 0 }, { z, r.in(0, z / 2) }, { z - r.in(0, z / 4), z } , { r.in(0, z / 4), z - 1 } };
        o = hull(o); std::vector<V> holes; long cx = r.in(2, z - 2);
        auto in = [&](P x) { for (std::size_t a = 0; a < o.size(); ++a) if (cross(o[a], o[(a + 1) % o.size()], x) <= 0) return false; return true; };
        for (int k = r.in(2, 9); k-- > 0;) for (int t = 0; t < 40; ++t) {
            P m{ r.chance(70) ? cx + r.in(-1, 1) : r.in(1, z - 1), r.chance(35) ? r.in(1, 2 * w) : r.in(1, z - 1) }; long e = r.pick(std::vector<long>{ 1, 1, 2, w, w + 1, 2 * w, 4 * w }), h = r.chance(50) ? e : r.in(1, e);
            V p = r.chance(50) ? V{ m, { m.x + e, m.y }, { m.x + e, m.y + h }, { m.x, m.y + h } } : V{ m, { m.x + e, m.y }, { m.x, m.y + h } };
            bool ok = true; for (P q : p) ok = ok && in(q);
            for (auto& u : holes) { long ax = 1 << 20, bx = -ax, ay = ax, by = bx; for (P q : u) { ax = std::min(ax, q.x); bx = std::max(bx, q.x); ay = std::min(ay, q.y); by = std::max(by, q.y); } ok = ok && (m.x > bx || m.x + e < ax || m.y > by || m.y + h < ay); }
            if (ok) { if (r.chance(50)) std::reverse(p.begin(), p.end()); holes.push_back(p); break; }
        }
        raster(g, o, holes, rnd_frame(r));
    }
    for (int i = 0, c = th ? 12000 : 800; i < c; ++i) {
        G g{ 0, 0, 0, 0, r.chance(50) ? 2 : 4 }; { int e = r.chance(4) ? 36 : 10; g.x1 = g.w * r.in(3, e) - 1; g.y1 = g.w * r.in(3, e) - 1; } g.x0 = -g.w * r.in(0, 3); g.y0 = -g.w * r.in(0, 3);
        V o; int tries = 0;
        do { o.clear(); if (r.chance(50)) { V p; for (int k = r.in(3, 10); k-- > 0;) p.push_back({ r.in(g.x0, g.x1), r.in(g.y0, g.y1) }); o = hull(p); } else { std::set<P> s; V p; for (int k = r.in(3, 7); k-- > 0;) { P q{ r.in(g.x0, g.x1), r.in(g.y0, g.y1) }; if (s.insert(q).second) p.push_back(q); } o = p; if (!simple(o)) o.clear(); } } while ((o.size() < 3 || !simple(o) || !column_convex(o)) && tries++ < 4000);
        if (o.size() < 3 || !simple(o) || !column_convex(o)) continue;
        if (r.chance(50)) std::reverse(o.begin(), o.end());
        std::vector<V> holes;
        if (r.chance(50)) {
            // small convex holes strictly inside, pairwise apart
            for (int k = r.in(1, 3); k-- > 0;) for (int t = 0; t < 60; ++t) {
                P m{ r.in(g.x0, g.x1), r.in(g.y0, g.y1) }; V p; int e = r.in(2, 9); for (int z = 0; z < 6; ++z) p.push_back({ m.x + r.in(-e, e), m.y + r.in(-e, e) }); p = hull(p); if (p.size() < 3) continue;
                auto inside = [&](const V& big, P x) { int w = 0; for (std::size_t a = 0; a < big.size(); ++a) { P s = big[a], u = big[(a + 1) % big.size()]; if (on_seg(s, u, x)) return 2; if ((s.y <= x.y) != (u.y <= x.y)) { long c = cross(s, u, x); if (s.y <= x.y ? c > 0 : c < 0) w ^= 1; } } return w; };
                auto apart = [&](const V& u, const V& v) { for (std::size_t a = 0; a < u.size(); ++a) for (std::size_t b = 0; b < v.size(); ++b) if (seg_touch(u[a], u[(a + 1) % u.size()], v[b], v[(b + 1) % v.size()])) return false; return true; };
                bool ok = apart(o, p) && inside(o, p[0]) == 1; for (auto& h : holes) ok = ok && apart(h, p) && !inside(h, p[0]) && !inside(p, h[0]);
                if (ok) { holes.push_back(p); break; }
            }
        }
        raster(g, o, holes, rnd_frame(r));
    }
    return end();
}
