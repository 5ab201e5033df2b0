// C09: grid geometry, dense and hashed cell stores
#include "gx.hpp"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/grid_2d.hpp>
#include <geometrix/algorithm/hash_grid_2d.hpp>
using namespace vh; using namespace gx;
using GT = grid_traits<double>;
static GT mkgrid(long x0, long x1, long y0, long y1, long w, const Frame& f, bool tup) {
    return tup ? GT(std::make_tuple(f.x(x0), f.x(x1), f.y(y0), f.y(y1)), f.len(w)) : GT(f.x(x0), f.x(x1), f.y(y0), f.y(y1), f.len(w));
}
static void traits(long x0, long x1, long y0, long y1, long w, const std::vector<P>& ps, const std::vector<P>& cells, const Frame& f, bool tup) {
    record("traits", arr(std::vector<long>{ x0, x1, y0, y1, w }, ps, cells), [&] {
        GT g = mkgrid(x0, x1, y0, y1, w, f, tup);
        auto ip = [&](const pt& p) { return Raw{ arr(fix(f.ix(p[0]), 1), fix(f.iy(p[1]), 1)) }; };
        std::vector<Raw> rp, rc;
        for (auto p : ps) {
            pt q = mk(p, f); bool c = g.is_contained(q);
            if (c) rp.push_back(Raw{ arr(c, g.get_x_index(q[0]), g.get_y_index(q[1]), rat(g.get_scaled_grid_coordinate_x(q[0])), rat(g.get_scaled_grid_coordinate_y(q[1]))) });
            else rp.push_back(Raw{ arr(c) });
        }
        for (auto c : cells) {
            auto m = g.get_cell_centroid(c.x, c.y); std::vector<Raw> pg; for (auto& q : g.get_cell_polygon(c.x, c.y)) pg.push_back(ip(q));
            auto bb = g.get_cell_aabb(c.x, c.y);
            std::vector<Raw> box{ ip(bb.get_lower_bound()), ip(bb.get_upper_bound()) };
            std::vector<Raw> cn{ ip(g.get_cell_corner0(c.x, c.y)), ip(g.get_cell_corner1(c.x, c.y)), ip(g.get_cell_corner2(c.x, c.y)), ip(g.get_cell_corner3(c.x, c.y)) };
            std::vector<long> ix{ c.x, c.y };
            if (g.is_contained(m)) { ix = { (long)g.get_x_index(m[0]), (long)g.get_y_index(m[1]) }; }
            rc.push_back(Raw{ arr(Raw{ arr(fix(f.ix(m[0]), 2), fix(f.iy(m[1]), 2)) }, pg, box, cn, ix) });
        }
        auto o = g.get_origin();
        Raw lim{ arr(fix(f.ix(g.get_min_x()), 1), fix(f.ix(g.get_max_x()), 1), fix(f.iy(g.get_min_y()), 1), fix(f.iy(g.get_max_y()), 1), fix(f.ilen(g.get_cell_size()), 1)) };
        return arr(std::vector<long>{ (long)g.get_width(), (long)g.get_height() }, rp, rc, std::vector<Raw>{ ip(o), lim });
    });
}
struct Op { long c, i, j, v; };
static std::string js(const Op& o) { return vh::arr(o.c, o.i, o.j, o.v); }
static std::string jops(const std::vector<Op>& v) { std::string s = "["; for (auto& o : v) { if (s.size() > 1) s += ","; s += js(o); } return s + "]"; }
static void hash(long W, long H, const std::vector<Op>& ops, const Frame& f, bool bypoint, const std::vector<P>* probes = nullptr) {
    using HG = hash_grid_2d<int, GT>;
    record(probes ? "bighash" : "hash", probes ? arr(std::vector<long>{ W, H }, Raw{ jops(ops) }, *probes) : arr(std::vector<long>{ W, H }, Raw{ jops(ops) }), [&] {
        GT t = mkgrid(0, 4 * W - 1, 0, 4 * H - 1, 4, f, false);
        std::unique_ptr<HG> g(new HG(t)); std::vector<long> rep, fin; std::uint64_t k = 0;
        for (auto& o : ops) {
            ++k; pt p(f.x(4 * o.i + k % 4), f.y(4 * o.j + (k * 7) % 4)); bool bp = bypoint && k % 2; const HG& cg = *g;
            if (o.c == 1) { int& c = bp ? g->get_cell(p) : g->get_cell(o.i, o.j); rep.push_back(c); c = o.v; }
            if (o.c == 2) { const int* c = k % 3 == 0 ? (bp ? cg.find_cell(p) : cg.find_cell(o.i, o.j)) : (bp ? g->find_cell(p) : g->find_cell(o.i, o.j)); rep.push_back(c ? *c : -1); }
            if (o.c == 3) { g->erase(o.i, o.j); rep.push_back(0); }
            if (o.c == 4) { g->clear(); rep.push_back(0); }
            if (o.c == 5) { std::unique_ptr<HG> h(new HG(std::move(*g))); g = std::move(h); rep.push_back(0); }
            if (o.c == 6) { std::unique_ptr<HG> h(new HG(mkgrid(0, 9, 0, 9, 1, f, true))); h->get_cell(0, 0) = 77; h->get_cell(1, 0) = 78; *h = std::move(*g); g = std::move(h); rep.push_back(0); }
        }
        if (probes) for (auto& p : *probes) { const int* c = g->find_cell(p.x, p.y); fin.push_back(c ? *c : -1); }
        else for (int i = 0; i < W; ++i) for (int j = 0; j < H; ++j) { const int* c = g->find_cell(i, j); fin.push_back(c ? *c : -1); }
        if (g->get_traits().get_width() != (unsigned)W || g->get_traits().get_height() != (unsigned)H) fin.clear();
        return arr(rep, fin);
    });
}
static void dense(long W, long H, const std::vector<Op>& ops, const Frame& f, const std::vector<P>* probes = nullptr) {
    record(probes ? "bigdense" : "dense", probes ? arr(std::vector<long>{ W, H }, Raw{ jops(ops) }, *probes) : arr(std::vector<long>{ W, H }, Raw{ jops(ops) }), [&] {
        grid_2d<int, GT> g(mkgrid(0, 4 * W - 1, 0, 4 * H - 1, 4, f, false)); const auto& cg = g; std::vector<long> rep, fin; int k = 0;
        for (auto& o : ops) { ++k; pt p(f.x(4 * o.i + k % 4), f.y(4 * o.j + (k * 3) % 4)); rep.push_back(k % 2 ? (k % 4 == 1 ? cg.get_cell(p) : g.get_cell(p)) : cg.get_cell(o.i, o.j)); if (k % 3) g.get_cell(o.i, o.j) = o.v; else g.get_cell(p) = o.v; }
        if (probes) for (auto& p : *probes) fin.push_back(g.get_cell(p.x, p.y));
        else for (int i = 0; i < W; ++i) for (int j = 0; j < H; ++j) fin.push_back(g.get_cell(i, j));
        return arr(rep, fin);
    });
}
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 3; far_ok() = true;
    const bool th = opts().thorough;
    // histories generated from the specification
    std::uint64_t n = 0;
    for (auto& l : script()) { std::vector<Op> ops; for (std::size_t i = 0; i + 3 < l.size(); i += 4) ops.push_back({ l[i], l[i + 1], l[i + 2], l[i + 3] }); hash(2, 2, ops, frames()[n++ % 3], n % 2); }
    Rng r = stream("c09");
    for (int i = 0, c = th ? 6000 : 600; i < c; ++i) {
        int W = r.in(1, 6), H = r.in(1, 6); std::vector<Op> ops;
        for (int k = r.in(5, 60); k-- > 0;) { int q = r.in(0, 99); ops.push_back({ q < 45 ? 1 : q < 70 ? 2 : q < 92 ? 3 : q < 94 ? 4 : q < 97 ? 5 : 6, r.in(0, W - 1), r.in(0, H - 1), k + 1 }); }
        hash(W, H, ops, rnd_frame(r), r.chance(50));
        for (auto& o : ops) o.c = 1;
        dense(W, H, ops, rnd_frame(r));
    }
    // grids of up to 2^26 cells a side; cells whose indices agree in their low bits, in their sum, swapped, or in i * H + j modulo 2^32
    Rng u = stream("big");
    for (int i = 0, c = th ? 8000 : 900; i < c; ++i) {
        int e = u.in(7, 26), d = u.in(7, 26); long W = (1L << e) - (u.chance(50) ? u.in(0, 60) : 0), H = (1L << d) - (u.chance(50) ? u.in(0, 60) : 0);
        std::vector<P> near{ { (long)(u.next() % W), (long)(u.next() % H) } };
        auto add = [&](long x, long y) { P p{ (x % W + W) % W, (y % H + H) % H }; if (std::find(near.begin(), near.end(), p) == near.end()) near.push_back(p); };
        for (int k = u.in(2, 6); k-- > 0;) {
            P b = u.pick(near);
            switch (u.in(0, 6)) {
            case 0: add(b.x + (1L << u.in(0, e)), b.y); break;
            case 1: add(b.x, b.y + (1L << u.in(0, d))); break;
            case 2: add(b.y, b.x); break;
            case 3: { long q = u.in(1, 300); add(b.x + q, b.y - q); break; }
            case 4: add(b.x + (1L << u.in(0, e)), b.y + (1L << u.in(0, d))); break;
            case 5: for (int t = 0; t < 3000; ++t) { std::uint32_t x = u.next() % W, y = std::uint32_t(b.x - (long)x) * std::uint32_t(H) + std::uint32_t(b.y); if (x != b.x && y < H) { add(x, y); break; } } break;
            default: for (int t = 0; t < 3000; ++t) { std::uint32_t y = u.next() % H, x = std::uint32_t(b.y - (long)y) * std::uint32_t(W) + std::uint32_t(b.x); if (y != b.y && x < W) { add(x, y); break; } }
            }
        }
        std::vector<Op> ops;
        for (int k = u.in(4, 24); k-- > 0;) { int q = u.in(0, 99); P p = u.pick(near); ops.push_back({ q < 50 ? 1 : q < 74 ? 2 : q < 94 ? 3 : q < 96 ? 4 : q < 98 ? 5 : 6, p.x, p.y, k + 1 }); }
        hash(W, H, ops, rnd_frame(u), u.chance(50), &near);
        if (i % 9 == 0) {
            long W2 = u.in(1, 700), H2 = u.in(1, 700); std::vector<P> pr; std::vector<Op> o2;
            for (int k = 0; k < 6; ++k) pr.push_back({ u.in(0, W2 - 1), u.in(0, H2 - 1) });
            for (int k = 0; k < 3; ++k) pr.push_back({ (pr[k].x + 256) % W2, pr[k].y }), pr.push_back({ pr[k].x, (pr[k].y + 256) % H2 });
            for (int k = u.in(5, 20); k-- > 0;) { P p = u.pick(pr); o2.push_back({ 1, p.x, p.y, k + 1 }); }
            dense(W2, H2, o2, rnd_frame(u), &pr);
        }
        long w = u.pick(std::vector<int>{ 1, 1, 2, 3, 5, 8, 10, 64, 100, 1000, 2048 }); int m = std::min(u.in(8, 26), 28);
        long x0 = u.in(-1, 1) * (1L << u.in(0, 28)), y0 = u.in(-1, 1) * (1L << u.in(0, 28)), ex = std::max(1L, (1L << m) - u.in(0, 99)), ey = std::max(1L, (1L << u.in(8, 26)) - u.in(0, 99));
        std::vector<P> ps, cells;
        for (int k = 0; k < 6; ++k) ps.push_back({ x0 + (long)(u.next() % ex), y0 + (long)(u.next() % ey) });
        ps.push_back({ x0 + ex, y0 + ey }); ps.push_back({ x0 + ex + 1, y0 }); ps.push_back({ x0, y0 - 1 });
        for (int k = 0; k < 3; ++k) cells.push_back({ (long)(u.next() % (ex / w + 1)), (long)(u.next() % (ey / w + 1)) });
        traits(x0, x0 + ex, y0, y0 + ey, w, ps, cells, rnd_frame(u), u.chance(50));
    }
    for (int i = 0, c = th ? 30000 : 3000; i < c; ++i) {
        long w = r.pick(std::vector<int>{ 1, 1, 2, 3, 4, 5, 7, 8, 10, 13 });
        long x0 = r.in(-20, 20), y0 = r.in(-20, 20), ex = r.in(1, r.chance(50) ? 8 : 40), ey = r.in(1, r.chance(50) ? 8 : 40);
        if (r.chance(40)) ex = w * r.in(1, 8);
        if (r.chance(40)) ey = w * r.in(1, 8);
        std::vector<P> ps, cells;
        for (int k = 0; k < 6; ++k) { P p; p.x = x0 + (r.chance(50) ? r.in(-2, ex + 2) : r.in(0, ex)); p.y = y0 + (r.chance(50) ? r.in(-2, ey + 2) : r.in(0, ey)); if (r.chance(20)) p.x = r.chance(50) ? x0 : x0 + ex; if (r.chance(20)) p.y = r.chance(50) ? y0 : y0 + ey; ps.push_back(p); }
        for (int k = 0; k < 3; ++k) cells.push_back({ r.in(0, ex / w), r.in(0, ey / w) });
        traits(x0, x0 + ex, y0, y0 + ey, w, ps, cells, rnd_frame(r), r.chance(50));
    }
    return end();
}
