// C08: distances to polygons and polylines
#include "gx.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/distance/segment_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polygon_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polyline_distance.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_distance.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_distance.hpp>
#include <geometrix/algorithm/point_sequence/point_polyline_orientation.hpp>
using namespace vh; using namespace gx;
using V = std::vector<P>;
static double S(double v) { return v * v; }
static double d2(const pt& a, const pt& b) { return S(a[0] - b[0]) + S(a[1] - b[1]); }
static Q sq(double v, const Frame& f) { return rat(f.isq(v), 8000); }
static Raw R(std::string s) { return Raw{ std::move(s) }; }
static pt lerp(const pt& a, const pt& b, double t) { return pt(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])); }
static Raw in01(double s, double t) { return R(arr(s >= 0 && s <= 1, t >= 0 && t <= 1)); }
static Raw dev(const pt& x, const pt& ex, const pt& y, const pt& ey, const Frame& f) { return R(arr(fix(std::sqrt(d2(x, ex)) / f.s, 1e5), fix(std::sqrt(d2(y, ey)) / f.s, 1e5))); }
template <class G> static Raw near1(const pt& a, const pt& b, const std::vector<pt>& v, const Frame& f, G&& g) {
    std::size_t k = 99; double s = -9, t = -9; pt x(-1e3, -1e3), y(1e3, 1e3); double r = g(k, s, t, x, y);
    if (k >= v.size()) return R(arr(sq(r, f), 98, R("[]"), R("[]"), 0));
    return R(arr(sq(r, f), k, in01(s, t), dev(x, lerp(a, b, s), y, lerp(v[k], v[(k + 1) % v.size()], t), f), sq(d2(x, y), f)));
}
template <class G> static Raw near2(const std::vector<pt>& u, const std::vector<pt>& v, const Frame& f, G&& g) {
    std::size_t i = 99, j = 99; double s = -9, t = -9; pt x(-1e3, -1e3), y(1e3, 1e3); double r = g(i, j, s, t, x, y);
    if (i >= u.size() || j >= v.size()) return R(arr(sq(r, f), 98, 98));
    return R(arr(sq(r, f), i, j, in01(s, t), dev(x, lerp(u[i], u[(i + 1) % u.size()], s), y, lerp(v[j], v[(j + 1) % v.size()], t), f), sq(d2(x, y), f)));
}
static void ptseq(P p, const V& v, const V& w, const Frame& f) {
    record("ptseq", arr(p, v, w), [&] {
        pt z = mk(p, f); pgon a = mkpoly(v, f), b = mkpoly(w, f); pline l = mkline(v, f); std::vector<pgon> c{ a, b };
        auto cp = [&](const pt& q) { return R(arr(out(q, f), sq(d2(z, q), f))); };
        return arr(sq(point_polygon_distance_sqrd(z, a), f), sq(S(point_polygon_distance(z, a)), f), cp(point_polygon_closest_point(z, a)),
                   sq(point_polyline_distance_sqrd(z, l), f), sq(S(point_polyline_distance(z, l)), f), cp(point_polyline_closest_point(z, l)), cp(point_polygon_collection_closest_point(z, c)));
    });
}
static void segseq(P p, P q, const V& v, int i, int j, const Frame& f) {
    record("segseq", arr(p, q, v, i + 1, j + 1), [&] {
        pt x = mk(p, f), y = mk(q, f); seg s(x, y); pgon a = mkpoly(v, f); pline l = mkline(v, f); std::vector<pt> vv(a.begin(), a.end());
        std::tuple<std::size_t, std::size_t> sub(i, j);
        auto eq = [&](double d, double e) { return std::fabs(d - e) < 1e-9 * (1 + std::fabs(d)); };
        double dp = segment_polygon_distance(s, a, cmp()), dl = segment_polyline_distance(s, l, cmp());
        bool okp = eq(dp, segment_polygon_distance(x, y, a, cmp())) && eq(segment_polygon_distance_sqrd(s, a, cmp()), dp * dp), okl = eq(dl, segment_polyline_distance(x, y, l, cmp())) && eq(segment_polyline_distance_sqrd(s, l, cmp()), dl * dl);
        return arr(sq(segment_polygon_distance_sqrd(x, y, a, cmp()), f), okp ? sq(dp * dp, f) : Q(), sq(segment_polyline_distance_sqrd(x, y, l, cmp()), f), okl ? sq(dl * dl, f) : Q(),
            near1(x, y, vv, f, [&](std::size_t& k, double& s1, double& t1, pt& c1, pt& c2) { return (i & 1) ? segment_polygon_closest_point(x, y, a, k, s1, t1, c1, c2, cmp()) : segment_polygon_closest_point(s, a, k, s1, t1, c1, c2, cmp()); }),
            near1(x, y, vv, f, [&](std::size_t& k, double& s1, double& t1, pt& c1, pt& c2) { return (i & 1) ? segment_polyline_closest_point(x, y, l, k, s1, t1, c1, c2, cmp()) : segment_polyline_closest_point(s, l, k, s1, t1, c1, c2, cmp()); }),
            near1(x, y, vv, f, [&](std::size_t& k, double& s1, double& t1, pt& c1, pt& c2) { return (i & 1) ? segment_polygon_closest_point(x, y, sub, a, k, s1, t1, c1, c2, cmp()) : segment_polygon_closest_point(s, sub, a, k, s1, t1, c1, c2, cmp()); }),
            near1(x, y, vv, f, [&](std::size_t& k, double& s1, double& t1, pt& c1, pt& c2) { return (i & 1) ? segment_polyline_closest_point(x, y, sub, l, k, s1, t1, c1, c2, cmp()) : segment_polyline_closest_point(s, sub, l, k, s1, t1, c1, c2, cmp()); }),
            sq(segment_subpolygon_distance_sqrd(x, y, sub, a, cmp()), f), sq(segment_subpolyline_distance_sqrd(x, y, sub, l, cmp()), f));
    });
}
static void seqseq(const V& u, const V& v, const Frame& f) {
    record("seqseq", arr(u, v), [&] {
        pgon a = mkpoly(u, f), b = mkpoly(v, f); pline l = mkline(u, f), m = mkline(v, f); std::vector<pt> uu(a.begin(), a.end()), vv(b.begin(), b.end());
        return arr(sq(polygon_polygon_distance_sqrd(a, b, cmp()), f), sq(S(polygon_polygon_distance(a, b, cmp())), f),
            near2(uu, vv, f, [&](std::size_t& i, std::size_t& j, double& s, double& t, pt& x, pt& y) { return polygon_polygon_closest_point(a, b, i, j, s, t, x, y, cmp()); }),
            sq(polyline_polyline_distance_sqrd(l, m, cmp()), f), sq(S(polyline_polyline_distance(l, m, cmp())), f),
            near2(uu, vv, f, [&](std::size_t& i, std::size_t& j, double& s, double& t, pt& x, pt& y) { return polyline_polyline_closest_point(l, m, i, j, s, t, x, y, cmp()); }));
    });
}
static void side(const V& v, P p, const Frame& f) {
    record("side", arr(v, p), [&] { auto o = point_polyline_orientation(mk(p, f), mkline(v, f), cmp()); return arr(o == oriented_left ? 1 : o == oriented_right ? -1 : 0); });
}
static V walk(Rng& r, int n, int R) { V v; while ((int)v.size() < n) { P p = rnd_pt(r, -R, R); if (v.empty() || v.back() != p) v.push_back(p); } return v; }
static V shift(V v, P d) { for (auto& p : v) { p.x += d.x; p.y += d.y; } return v; }
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 2; far_ok() = true;
    const bool th = opts().thorough;
    Rng r = stream("c08");
    int n = th ? 20000 : 900;
    for (int i = 0; i < n; ++i) {
        int R = r.pick(std::vector<int>{ 3, 6, 10 }); Frame f = rnd_frame(r);
        V v = r.chance(50) ? rnd_simple(r, r.in(3, 9), -R, R) : r.chance(50) ? rnd_comb(r, r.in(1, 4), 4) : rnd_convex(r, r.in(3, 9), -R, R);
        V w = rnd_simple(r, r.in(3, 6), -R, R);
        for (int k = 0; k < 3; ++k) { ptseq(rnd_pt(r, -R - 3, R + 3), v, w, f); side(r.chance(50) ? v : walk(r, r.in(2, 6), R), rnd_pt(r, -R - 1, R + 1), f); }
        P p = rnd_pt(r, -R - 2, R + 2), q = r.chance(20) ? p : rnd_pt(r, -R - 2, R + 2); if (r.chance(50)) { q = p; q.x += r.in(-2, 2); q.y += r.in(-2, 2); }
        int a = r.in(0, (int)v.size() - 2), b = r.in(a + 1, (int)v.size() - 1);
        segseq(p, q, v, a, b, f);
    }
    for (int i = 0; i < n / 12; ++i) {    // many corners
        Frame f = rnd_frame(r); V v = r.chance(30) ? rnd_comb(r, r.in(6, 24), 6) : rnd_star(r, r.pick(std::vector<int>{ 14, 20, 36, 60 }), 11), w = rnd_star(r, 20, 11);
        ptseq(rnd_pt(r, -14, 14), v, w, f); side(v, rnd_pt(r, -12, 12), f);
        P p = rnd_pt(r, -14, 14), q{ p.x + r.in(-3, 3), p.y + r.in(-3, 3) }; int a = r.in(0, (int)v.size() - 2), b = r.in(a + 1, (int)v.size() - 1); segseq(p, q, v, a, b, f);
    }
    n = th ? 6000 : 260;
    for (int i = 0; i < n; ++i) {
        int R = r.pick(std::vector<int>{ 4, 7, 9 }); Frame f = rnd_frame(r);
        auto mkv = [&] { return r.chance(30) ? rnd_comb(r, r.in(1, 6), 5) : r.chance(50) ? rnd_simple(r, r.in(3, 14), -R, R) : rnd_convex(r, r.in(4, 30), -R, R); };
        V u = mkv(), v = mkv();
        P d{ r.in(-1, 1) * (2 * R + r.in(0, 3)), r.in(-1, 1) * (2 * R + r.in(0, 3)) };
        v = shift(v, d);
        if (r.chance(50)) std::rotate(u.begin(), u.begin() + r.next() % u.size(), u.end());
        seqseq(u, v, f);
    }
    return end();
}
