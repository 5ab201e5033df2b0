// C04: axis aligned boxes
#include "gx.hpp"
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/intersection/aabb_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_aabb_intersection.hpp>
#include <geometrix/algorithm/cohen_sutherland_line_clipping.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/polygon_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_aabb_intersection.hpp>
#include <geometrix/algorithm/bounding_box_intersection.hpp>
using namespace vh; using namespace gx;
using box = axis_aligned_bounding_box<pt>; using box3 = axis_aligned_bounding_box<pt3>;
static std::string ip(const pt& p, const Frame& f) { return arr(fix(f.ix(p[0]), 1), fix(f.iy(p[1]), 1)); }
static std::string jb_(const box& b, const Frame& f) { return "[" + ip(b.get_lower_bound(), f) + "," + ip(b.get_upper_bound(), f) + "]"; }
static Raw R(std::string s) { return Raw{ std::move(s) }; }
static void bounds(const std::vector<P>& v, int i, int j, const Frame& f) {
    record("bounds", arr(v, i + 1, j + 1), [&] {
        pline pl = mkline(v, f); pgon pg = mkpoly(v, f);
        auto b0 = box(get_bounds(pl, cmp()));
        auto b1 = make_aabb<pt>(pg);
        auto b2 = make_aabb<pt>(pl, std::make_tuple(std::size_t(i), std::size_t(j)));
        box b3(pl[0], pl[0]); for (auto& p : pl) b3.expand(box(p, p));
        std::size_t h = pl.size() / 2; auto t = get_bounds(pl, std::make_tuple(std::size_t(0), h), cmp()), u = get_bounds(pl, std::make_tuple(h, pl.size() - 1), cmp());
        box b4 = make_aabb<pt>(update_bound(t, u));
        auto b5 = make_aabb<pt>(seg(pl.front(), pl.back()));
        box b6(pl[0], pl[0]); b6 = make_aabb<pt>(pg, std::make_tuple(std::size_t(i), std::size_t(j)), cmp()).to_tuple();
        std::string c = "["; for (int k = 0; k < 4; ++k) c += (k ? "," : "") + ip(b0[k], f); c += "]";
        return arr(R(jb_(b0, f)), R(jb_(b1, f)), R(jb_(b2, f)), R(jb_(b3, f)), R(jb_(b4, f)), R(jb_(b5, f)), R(jb_(b6, f)), R(c));
    });
}
using A3 = std::array<long, 3>;
static pt3 m3(A3 p, double s, double t) { return pt3(p[0] * s + t, p[1] * s - t, p[2] * s + 2 * t); }
static void bounds3(const std::vector<A3>& v, int i, int j, double s, double t) {
    record("bounds3", arr(v, i + 1, j + 1), [&] {
        polyline<pt3> pl; for (auto& p : v) pl.push_back(m3(p, s, t));
        auto o = [&](const box3& b) { auto q = [&](const pt3& p) { return arr(fix((p[0] - t) / s, 1), fix((p[1] + t) / s, 1), fix((p[2] - 2 * t) / s, 1)); }; return R("[" + q(b.get_lower_bound()) + "," + q(b.get_upper_bound()) + "]"); };
        auto b0 = box3(get_bounds(pl, cmp())); auto b1 = make_aabb<pt3>(pl); auto b2 = make_aabb<pt3>(pl, std::make_tuple(std::size_t(i), std::size_t(j)));
        box3 b3(pl[0], pl[0]); for (auto& p : pl) b3.expand(box3(p, p));
        std::size_t h = pl.size() / 2; auto b4 = make_aabb<pt3>(update_bound(get_bounds(pl, std::make_tuple(std::size_t(0), h), cmp()), get_bounds(pl, std::make_tuple(h, pl.size() - 1), cmp())));
        auto b5 = make_aabb<pt3>(segment<pt3>(pl.front(), pl.back()), cmp());
        box3 b6(b0); b6 = b2.to_tuple();
        return arr(o(b0), o(b1), o(b2), o(b3), o(b4), o(b5), o(b6));
    });
}
static void boxes(P a, P b, P c, P d, P p, const Frame& f) {
    record("boxes", arr(a, b, c, d, p), [&] {
        box u(mk(a, f), mk(b, f)), v(mk(c, f), mk(d, f)); pt q = mk(p, f);
        return arr(u.intersects(v, cmp()), u.intersects(v) && aabb_aabb_intersection(u, v, cmp()), u.contains(v, cmp()), u.contains(v), u.intersects(q, cmp()), u.intersects(q), v.intersects(u));
    });
}
static void raybox(P o, P d, P a, P b, const Frame& f) {
    record("raybox", arr(o, d, a, b), [&] {
        box u(mk(a, f), mk(b, f)); vec v(f.len(d.x), f.len(d.y)); double t = 0, t0 = 0, t1 = 0; pt q(0, 0), q0(0, 0), q1(0, 0);
        auto r = ray_aabb_intersection(mk(o, f), v, u, t, q, cmp());
        auto s = ray_aabb_intersection(mk(o, f), v, u, t0, q0, t1, q1, cmp());
        return arr(r.is_intersecting(), r.is_origin_inside(), rat(t), out(q, f), s.is_intersecting(), s.is_origin_inside(), rat(t0), out(q0, f), rat(t1), out(q1, f));
    });
}
static void segbox(P p, P q, P a, P b, const Frame& f) {
    record("segbox", arr(p, q, a, b), [&] {
        box u(mk(a, f), mk(b, f)); pt p0 = mk(p, f), p1 = mk(q, f);
        bool h = segment_aabb_intersection(p0, p1, u);
        double x0 = p0[0], y0 = p0[1], x1 = p1[0], y1 = p1[1];
        bool c = cohen_sutherland_line_clip(x0, y0, x1, y1, f.x(a.x), f.x(b.x), f.y(a.y), f.y(b.y), cmp());
        return arr(h, c, out(pt(x0, y0), f), out(pt(x1, y1), f));
    });
}
static void segbox3(A3 p, A3 q, A3 a, A3 b, double s, double t) {
    record("segbox3", arr(p, q, a, b), [&] { return arr(segment_aabb_intersection(m3(p, s, t), m3(q, s, t), box3(m3(a, s, t), m3(b, s, t)))); });
}
static void segbounds(P a, P b, P c, P d, const Frame& f) {       // the boxes of two segments
    record("segbounds", arr(a, b, c, d), [&] { return arr(bounding_box_intersection(mk(a, f), mk(b, f), mk(c, f), mk(d, f), cmp()), bounding_box_intersection(seg(mk(a, f), mk(b, f)), seg(mk(c, f), mk(d, f)), cmp())); });
}
static void polybox(const std::vector<P>& v, P a, P b, const Frame& f) {
    record("polybox", arr(v, a, b), [&] { box u(mk(a, f), mk(b, f)); return arr(polygon_aabb_intersection(mkpoly(v, f), u), polyline_aabb_intersection(mkline(v, f), u)); });
}
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 3;
    const bool th = opts().thorough;
    Rng r = stream("c04");
    auto rb = [&](int R, P& a, P& b) { do { a = rnd_pt(r, -R, R); b = rnd_pt(r, -R, R); } while (a.x == b.x || a.y == b.y); if (a.x > b.x) std::swap(a.x, b.x); if (a.y > b.y) std::swap(a.y, b.y); };
    // exhaustive: a fixed box, all segments of a grid around it, all small ray directions
    std::uint64_t k = 0;
    for (P box1 : { P{ 1, 1 }, P{ 1, 2 }, P{ 2, 2 } }) {
        P a{ 0, 0 }, b = box1;
        for (int x = -2; x <= 4; ++x) for (int y = -2; y <= 4; ++y) {
            for (int u = -2; u <= 4; ++u) for (int v = -2; v <= 4; ++v) if (mine(k++)) segbox({ x, y }, { u, v }, a, b, frames()[k % 7]);
            for (int u = -4; u <= 4; ++u) for (int v = -4; v <= 4; ++v) if ((u || v) && mine(k++)) raybox({ x, y }, { u, v }, a, b, frames()[k % 7]);
            for (int u = -1; u <= 3; ++u) for (int v = -1; v <= 3; ++v) for (int s = 1; s <= 2; ++s) if (mine(k++)) boxes(a, b, { x, y }, { x + s, y + 3 - s }, { u, v }, frames()[k % 7]);
        }
    }
    int cnt = th ? 40000 : 2500;
    for (int i = 0; i < cnt; ++i) {
        P a, b, c, d; int R = r.pick(std::vector<int>{ 3, 8, 20 });
        rb(R, a, b); rb(R, c, d);
        boxes(a, b, c, d, rnd_pt(r, -R, R), rnd_frame(r));
        segbounds(rnd_pt(r, -R, R), rnd_pt(r, -R, R), rnd_pt(r, -R, R), rnd_pt(r, -R, R), rnd_frame(r));
        segbox(rnd_pt(r, -R - 3, R + 3), rnd_pt(r, -R - 3, R + 3), a, b, rnd_frame(r));
        P dir; do dir = rnd_pt(r, -8, 8); while (!dir.x && !dir.y);
        P o = rnd_pt(r, -R - 3, R + 3);
        if (r.chance(30)) { P cn{ r.chance(50) ? a.x : b.x, r.chance(50) ? a.y : b.y }; int m = r.in(0, 3); o = { cn.x - m * dir.x, cn.y - m * dir.y }; } // through a corner
        raybox(o, dir, a, b, rnd_frame(r));
        std::vector<P> v; int n = r.in(1, 8); for (int q = 0; q < n; ++q) v.push_back(rnd_pt(r, -R, R));
        int x = r.in(0, n - 1), y = r.in(x, n - 1);
        bounds(v, x, y, rnd_frame(r));
        std::vector<P> s = r.chance(30) ? rnd_comb(r, r.in(1, 4), 6) : rnd_simple(r, r.in(3, 9), -8, 8);
        P e, g; rb(r.pick(std::vector<int>{ 4, 10, 10 }), e, g);
        if (r.chance(40)) { e = rnd_pt(r, -8, 8); g = { e.x + 1, e.y + 1 }; }
        if (r.chance(15)) { e = { -12, -12 }; g = { 12, 12 }; }
        polybox(s, e, g, rnd_frame(r));
        auto a3 = [&](int M) { A3 p; for (auto& q : p) q = r.in(-M, M); return p; };
        std::vector<A3> v3; for (int q = 0; q < n; ++q) v3.push_back(a3(6));
        double sc = r.pick(std::vector<double>{ 1, 2, .25 }), tr = r.pick(std::vector<double>{ 0, 3, -16 });
        bounds3(v3, x, y, sc, tr);
        A3 l = a3(3), h = l; for (auto& q : h) q += r.in(1, 4);
        A3 p = a3(6), q = a3(6);
        if (r.chance(40)) for (int m = 0; m < 3; ++m) { long cm = r.chance(50) ? l[m] : h[m]; long dm = r.in(-2, 2); p[m] = cm - dm; q[m] = cm + r.in(1, 2) * dm; }
        segbox3(p, q, l, h, sc, tr);
        A3 l2 = a3(5), h2 = l2; for (auto& q2 : h2) q2 += r.in(1, 4);
        A3 pp = a3(5);
        record("boxes3", arr(l, h, l2, h2, pp), [&] {
            box3 u(m3(l, sc, tr), m3(h, sc, tr)), v4(m3(l2, sc, tr), m3(h2, sc, tr)); pt3 z = m3(pp, sc, tr);
            return arr(u.intersects(v4, cmp()), u.intersects(v4), u.contains(v4, cmp()), u.contains(v4), u.intersects(z, cmp()), u.intersects(z), v4.intersects(u));
        });
    }
    return end();
}
