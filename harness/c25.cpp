// C25: oriented boxes and convex polygons, at rest and moving
#include "gx.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/moving_separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp>
using namespace vh; using namespace gx;
using A3 = std::array<long, 3>; using PS = std::vector<P>;
static Raw R(std::string s) { return Raw{ std::move(s) }; }
static vec v2(P v, const Frame& f) { return vec(v.x * f.s, v.y * f.s); }
static obb_double_2d mkobb(P c, A3 v, P w, const Frame& f) { double x = double(v[0]) / v[2], y = double(v[1]) / v[2]; return obb_double_2d(mk(c, f), vec(x, y), vec(-y, x), f.len(w.x), f.len(w.y)); }
static void sat(const PS& a, const PS& b, const Frame& f) { record("sat", arr(a, b), [&] { return arr(convex_polygons_intersection(mkpoly(a, f), mkpoly(b, f), cmp())); }); }
static const double INF = std::numeric_limits<double>::infinity();
static std::string times(bool h, double t0, double t1) { return h ? arr(true, rat(t0, 20000), t1 < 1e9 ? rat(t1, 20000) : Q(), t1 < 1e9) : arr(false, Q(), Q(), false); }
static void msat(const PS& a, const PS& b, P v, P v1, long tm, const Frame& f) {
    record("msat", arr(a, b, v, tm), [&] { double t0 = -7, t1 = -7; P w{ v.x + v1.x, v.y + v1.y }; bool h = moving_convex_polygons_intersection(mkpoly(a, f), v2(v1, f), mkpoly(b, f), v2(w, f), tm < 0 ? INF : double(tm), t0, t1, cmp()); return times(h, t0, t1); });
}
static void oo(P c, A3 x, P w, P d, A3 y, P z, const Frame& f) { record("oo", arr(c, x, w, d, y, z), [&] { return arr(obb_obb_intersection(mkobb(c, x, w, f), mkobb(d, y, z, f), cmp())); }); }
static void moo(P c, A3 x, P w, P d, A3 y, P z, P v, P v1, long tm, const Frame& f) {
    record("moo", arr(c, x, w, d, y, z, v, tm), [&] { double t0 = -7, t1 = -7; P u{ v.x + v1.x, v.y + v1.y }; bool h = moving_obb_obb_intersection(mkobb(c, x, w, f), v2(v1, f), mkobb(d, y, z, f), v2(u, f), tm < 0 ? INF : double(tm), t0, t1); return times(h, t0, t1); });
}
static void obb(P c, A3 x, P w, const Frame& f) {
    record("obb", arr(c, x, w), [&] {
        auto o = mkobb(c, x, w, f); auto rc = o.get_rectangle(); auto m = make_obb<pt, vec>(rc);
        auto four = [&](const auto& q) { std::vector<QP> o; for (int k = 0; k < 4; ++k) o.push_back(out(q[k], f)); return o; };
        return arr(four(o), four(rc), four(m), o.size());
    });
}
static void cx(const PS& a, const PS& b, const Frame& f) {
    record("cx", arr(a, b), [&] { std::vector<QP> o; auto t = convex_polygon_polygon_intersection(mkpoly(a, f), mkpoly(b, f), [&](const pt& p) { o.push_back(out(p, f)); }, cmp()); return arr(int(t), o); });
}
int main(int argc, char** argv) {
    begin(argc, argv);
    const bool th = opts().thorough; Rng r = stream("c25");
    std::vector<A3> dirs = { { 1, 0, 1 }, { 0, 1, 1 }, { 3, 4, 5 }, { -4, 3, 5 }, { -3, -4, 5 }, { 4, -3, 5 }, { -1, 0, 1 }, { 0, -1, 1 } };
    int n = th ? 20000 : 800;
    auto ccw = [](PS v) { if (area2(v) < 0) std::reverse(v.begin(), v.end()); return v; };
    auto turn = [&](PS v) { std::rotate(v.begin(), v.begin() + r.in(0, v.size() - 1), v.end()); return v; };
    for (int i = 0; i < n; ++i) {
        Frame f = frames()[r.next() % 6];
        int K = r.pick(std::vector<int>{ 2, 4, 7 });
        auto poly = [&] { PS v; if (r.chance(25)) { P l = rnd_pt(r, -K, K); long w = r.in(1, 3), h = r.in(1, 3); v = { l, { l.x + w, l.y }, { l.x + w, l.y + h }, { l.x, l.y + h } }; } else if (r.chance(30)) { P c = rnd_pt(r, -K, K); long q = r.in(1, 3); v = { { c.x - q, c.y }, { c.x, c.y - q }, { c.x + q, c.y }, { c.x, c.y + q } }; } else v = rnd_convex(r, r.in(3, 9), -K, K); return turn(ccw(v)); };
        PS a = poly(), b = poly(); P sh{ r.in(-K, K), r.in(-K, K) }; if (r.chance(60)) for (auto& p : b) { p.x += sh.x; p.y += sh.y; }
        PS ar = a, br = b; if (r.chance(30)) { std::reverse(ar.begin(), ar.end()); std::reverse(br.begin(), br.end()); } else if (r.chance(30)) std::reverse(br.begin(), br.end());
        sat(ar, br, f);
        P v = rnd_pt(r, -3, 3), v1 = rnd_pt(r, -2, 2); if (r.chance(60)) { v.x = std::abs(v.x) * sgn(a[0].x - b[0].x); v.y = std::abs(v.y) * sgn(a[0].y - b[0].y); }
        msat(ar, br, v, v1, r.chance(60) ? -1 : r.in(0, 4), f);
        cx(a, b, f);
        A3 x = r.pick(dirs), y = r.pick(dirs); P w{ r.in(1, 3), r.in(1, 3) }, z{ r.in(1, 3), r.in(1, 3) }, c = rnd_pt(r, -3, 3), d = rnd_pt(r, -5, 5);
        obb(c, x, w, f); oo(c, x, w, d, y, z, f);
        v = rnd_pt(r, -3, 3); if (r.chance(60)) { v.x = std::abs(v.x) * sgn(c.x - d.x); v.y = std::abs(v.y) * sgn(c.y - d.y); }
        moo(c, x, w, d, y, z, v, v1, r.chance(60) ? -1 : r.in(0, 4), f);
    }
    for (int i = 0, c = th ? 2000 : 100; i < c; ++i) {   // many corners
        Frame f = frames()[r.next() % 6];
        PS a = rnd_zonogon(r, r.in(3, 24), r.in(3, 5)), b = r.chance(50) ? rnd_zonogon(r, r.in(3, 24), r.in(3, 5)) : rnd_convex(r, r.in(3, 40), -12, 12);
        int K = r.pick(std::vector<int>{ 5, 20, 60 }); P sh = rnd_pt(r, -K, K); for (auto& p : b) { p.x += sh.x; p.y += sh.y; }
        a = turn(ccw(a)); b = turn(ccw(b));
        PS ar = a, br = b; if (r.chance(30)) std::reverse(ar.begin(), ar.end()); if (r.chance(30)) std::reverse(br.begin(), br.end());
        sat(ar, br, f); cx(a, b, f);
        P v = rnd_pt(r, -3, 3), v1 = rnd_pt(r, -2, 2); if (r.chance(60)) { v.x = std::abs(v.x) * sgn(a[0].x - b[0].x); v.y = std::abs(v.y) * sgn(a[0].y - b[0].y); }
        msat(ar, br, v, v1, r.chance(60) ? -1 : r.in(0, 30), f);
    }
    return end();
}
