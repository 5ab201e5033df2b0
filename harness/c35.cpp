// C35: histories of points, displacements, velocities, a length and a time; queries whose replies are decided by the geometry of the plane
#include "c35.hpp"
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/aabb_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
using K = Kit<SYSTEM>; using Op = std::array<long, 5>; using LL = std::array<long, 2>;
using Q_ = K::Q; using V_ = K::V; using U_ = K::U; using E_ = K::E; using L_ = K::L; using T_ = K::T;
static const auto cmp = pol<K>();
static long UN = 1;   // amounts are counted in units of 1 / UN
static long near(double v) { long n = std::lround(v); return std::fabs(v - n) < 1e-6 && std::labs(n) < 1000000000L ? n : -1999999999L; }
template <class N> static std::string dim(const bu::quantity<N, double>&, const std::string& v) { auto e = exps(N()); return arr(e[0], e[1], Raw{ v }); }
template <class N> static Raw dimn(const bu::quantity<N, double>&) { auto e = exps(N()); return Raw{ arr(e[0], e[1]) }; }
static std::string dim(double, const std::string& v) { return arr(0, 0, Raw{ v }); }
template <class X> static Raw one(const X& q, double u) { return Raw{ dim(q, js(near(K::val(q) * u))) }; }
template <class X> static Raw two(const X& p) { return Raw{ dim(get<0>(p), arr(near(K::val(get<0>(p)) * UN), near(K::val(get<1>(p)) * UN))) }; }
static E_ dirs(long k) { return k == 1 ? K::un(1, 0) : k == 2 ? K::un(0, 1) : k == 3 ? K::un(.6, .8) : K::un(-.8, .6); }
struct World {
    Q_ p[2]; V_ v[2]; U_ u[2]; L_ l; T_ t;
    World() { p[0] = K::at(1, 2); p[1] = K::at(-2, 4); v[0] = K::ve(3, 4); v[1] = K::ve(-4, 3); u[0] = U_(K::spd(1), K::spd(0)); u[1] = U_(K::spd(-2), K::spd(1)); l = K::len(5); t = K::tim(2); }
    Raw seen() const {
        const double s = UN, q = s * s;
        auto same = numeric_sequence_equals(p[0], p[1], cmp); auto lex = lexicographically_less_than(p[0], p[1], cmp);
        L_ d = point_point_distance(p[0], p[1]);
        return Raw{ arr(two(p[0]), two(p[1]), two(v[0]), two(v[1]), two(u[0]), two(u[1]), one(l, s), one(t, 1), one(dot_product(v[0], v[1]), q), one(exterior_product_area(v[0], v[1]), q), one(dot_product(u[0], v[0]), q),
            one(magnitude_sqrd(u[1]), q), one(point_point_distance_sqrd(p[0], p[1]), q), one(d * d, q), one(l * t, s), one(l * l, q), one(magnitude(v[0]) * magnitude(v[0]), q), same, lex, (long)get_orientation(v[0], v[1], cmp), (long)get_orientation(u[0], v[1], cmp)) };
    }
};
template <class X> static void put(X& x, long i, const L_& n) { if (i == 1) set<0>(x, n); else set<1>(x, n); }
static void history(const std::vector<Op>& ops, long u, std::size_t salt) {
    UN = u;
    record("history", arr(ops, u), [&] {
        World w; std::vector<Raw> out; std::size_t n = salt; const double s = UN;
        for (auto& o : ops) {
            const long to = o[1] - 1, a = o[2] - 1, b = o[3] - 1; const double c = double(o[4]); const bool other = ++n % 2; auto &p = w.p; auto &v = w.v; auto &z = w.u;
            switch (o[0]) {
            case 1: if (other) p[to] = p[a] + v[b]; else assign(p[to], p[a] + v[b]); break;
            case 2: if (other) p[to] = p[a] - v[b]; else p[to] = construct<Q_>(p[a] - v[b]); break;
            case 3: if (other) v[to] = p[a] - p[b]; else assign(v[to], p[a] - p[b]); break;
            case 4: if (other) v[to] = v[a] + v[b]; else v[to] = construct<V_>(v[a] + v[b]); break;
            case 5: v[to] = v[a] - v[b]; break;
            case 6: if (other) v[to] = c * v[a]; else v[to] = v[a] * c; break;
            case 7: if (other) v[to] = v[a] / c; else v[to] = v[a] / K::num(c); break;
            case 8: if (other) v[to] = z[a] * w.t; else v[to] = w.t * z[a]; break;
            case 9: if (other) z[to] = v[a] / w.t; else assign(z[to], v[a] / w.t); break;
            case 10: if (other) p[to] = p[a] + z[b] * w.t; else p[to] = p[a] + w.t * z[b]; break;
            case 11: z[to] = z[a] + z[b]; break;
            case 12: if (other) z[to] = c * z[a]; else z[to] = K::num(c) * z[a]; break;
            case 13: v[to] = -v[a]; break;
            case 14: if (other) w.l = dot_product(v[a], dirs(o[3])); else w.l = scalar_projection(v[a], dirs(o[3])); break;
            case 15: if (other) v[to] = w.l * dirs(o[3]); else assign(v[to], dirs(o[3]) * w.l); break;
            case 16: w.t = K::tim(c); break;
            case 17: if (other) w.l = K::len(c / s); else w.l = construct<L_>(SYSTEM::other::from_value(K::k() == 1 ? c / s * 100 : c / s)); break;
            case 18: if (other) put(p[to], o[2], K::len(c / s)); else p[to] = construct<Q_>(o[2] == 1 ? K::len(c / s) : get<0>(p[to]), o[2] == 2 ? K::len(c / s) : get<1>(p[to])); break;
            case 19: w.t = magnitude_sqrd(v[a]) / dot_product(v[a], z[b]); break;
            case 20: w.l = magnitude(v[a]); break;
            case 21: if (other) p[to] = p[a] + 0.5 * (p[b] - p[a]); else p[to] = segment_mid_point(p[a], p[b]); break;
            case 22: v[to] = v[a] + (dot_product(v[b], v[a]) / dot_product(v[b], v[b])) * v[b]; break;
            case 23: { using SQ = point<SYSTEM::other, 2>; SQ q = SQ(SYSTEM::other(get<0>(p[a])), SYSTEM::other(get<1>(p[a]))); p[to] = construct<Q_>(L_(get<0>(q)), L_(get<1>(q))); break; }
            case 24: p[to] = p[a] + c * (p[b] - p[a]) + w.t * z[b]; break;
            }
            out.push_back(w.seen());
        }
        return js(out);
    });
}
static Q_ mk(P p) { return K::at(p.x, p.y); }
static QP out(const Q_& p) { return ratp(K::val(p[0]), K::val(p[1]), 20000); }
template <class X> static Q sq(const X& a) { return rat(K::val(a), 20000); }
template <class X> static Q sd(const X& a) { return sq(a * a); }
static Raw R(std::string s) { return Raw{ std::move(s) }; }
static K::A d2(const Q_& a, const Q_& b) { return point_point_distance_sqrd(a, b); }
using Seg = segment<Q_>; using Box = axis_aligned_bounding_box<Q_>; using Obb = oriented_bounding_box<Q_, E_>;
static Raw near_to(const Q_& z, const Q_& c) { return R(arr(out(c), sq(d2(z, c)))); }
static void plane(P a, P b, P c, P d, const std::vector<P>& v, const std::vector<P>& w) {
    if (!(a.x == b.x && a.y == b.y) && !(c.x == d.x && c.y == d.y)) record("ssi", arr(a, b, c, d), [&] {
        Q_ x[2], y[2]; x[0] = x[1] = y[0] = y[1] = K::at(-777, -777);
        int t = (int)segment_segment_intersection(mk(a), mk(b), mk(c), mk(d), x, cmp), t2 = (int)segment_segment_intersection(Seg(mk(a), mk(b)), Seg(mk(c), mk(d)), y, cmp); Q_* none = nullptr;
        int t3 = (int)segment_segment_intersection(mk(a), mk(b), mk(c), mk(d), none, cmp); std::vector<QP> q, q2;
        if (t == 1 || t == 3) q.push_back(out(x[0])); if (t == 2) { q.push_back(out(x[0])); q.push_back(out(x[1])); }
        if (t2 == 1 || t2 == 3) q2.push_back(out(y[0])); if (t2 == 2) { q2.push_back(out(y[0])); q2.push_back(out(y[1])); }
        return arr(t, q, t2, q2, t3);
    });
    record("ptseg", arr(c, a, b), [&] {
        Q_ z = mk(c), u = mk(a), e = mk(b); Seg s(u, e); K::D t = K::num(0);
        Q_ c0 = point_segment_closest_point(z, s), c1 = point_segment_closest_point(z, u, e), c2 = point_segment_closest_point_and_param(z, u, e, t);
        return arr(sq(point_segment_distance_sqrd(z, s)), sq(point_segment_distance_sqrd(z, u, e)), sd(point_segment_distance(z, s)), near_to(z, c0), near_to(z, c1), near_to(z, c2), rat(K::val(t)), out(segment_mid_point(u, e)), out(segment_mid_point(s)));
    });
    if (!(a.x == b.x && a.y == b.y)) record("ptline", arr(c, a, b), [&] { line<Q_> l(mk(a), mk(b)); L_ s = signed_point_line_distance(mk(c), l), u = point_line_distance(mk(c), l); return arr(K::val(s) > 1e-9 ? 1 : K::val(s) < -1e-9 ? -1 : 0, sd(s), K::val(u) >= 0 ? sd(u) : Q()); });
    record("tell", arr(a, b, c), [&] {
        return arr((long)get_orientation(mk(a), mk(b), mk(c), cmp), lexicographically_less_than(mk(a), mk(b), cmp), numeric_sequence_equals(mk(a), mk(c), cmp), is_collinear(mk(a), mk(b), mk(c), cmp), is_between(mk(a), mk(b), mk(c), true, cmp), is_between(mk(a), mk(b), mk(c), false, cmp));
    });
    P lo{ std::min(a.x, b.x), std::min(a.y, b.y) }, hi{ std::max(a.x, b.x), std::max(a.y, b.y) }, lo2{ std::min(c.x, d.x), std::min(c.y, d.y) }, hi2{ std::max(c.x, d.x), std::max(c.y, d.y) };
    record("ptbox", arr(c, lo, hi), [&] { Box u(mk(lo), mk(hi)); Q_ z = mk(c), q = point_aabb_closest_point(z, u); return arr(sq(point_aabb_distance_sqrd(z, u)), sd(point_aabb_distance(z, u)), R(arr(near(K::val(q[0])), near(K::val(q[1]))))); });
    record("boxbox", arr(lo, hi, lo2, hi2), [&] { Box u(mk(lo), mk(hi)), x(mk(lo2), mk(hi2)); return arr(sq(aabb_aabb_distance_sqrd(u, x)), sd(aabb_aabb_distance(u, x))); });
    record("segs", arr(a, b, c, d), [&] { return arr(sq(segment_segment_distance_sqrd(Seg(mk(a), mk(b)), Seg(mk(c), mk(d)), cmp)), sd(segment_segment_distance(mk(a), mk(b), mk(c), mk(d), cmp))); });
    polygon<Q_> g, h; polyline<Q_> l; for (auto& e : v) { g.push_back(mk(e)); l.push_back(mk(e)); } for (auto& e : w) h.push_back(mk(e)); std::vector<polygon<Q_>> both{ g, h };
    record("ptseq", arr(a, v, w), [&] {
        Q_ z = mk(a); return arr(sq(point_polygon_distance_sqrd(z, g)), sd(point_polygon_distance(z, g)), near_to(z, point_polygon_closest_point(z, g)), sq(point_polyline_distance_sqrd(z, l)), sd(point_polyline_distance(z, l)), near_to(z, point_polyline_closest_point(z, l)), near_to(z, point_polygon_collection_closest_point(z, both)));
    });
    record("ring", arr(v, a, d), [&] {
        auto ce = get_centroid(g); Box bx = make_aabb<Q_>(g); auto s = get_signed_area(g), u = get_area(g); auto bn = get_bounds(g, cmp);
        return arr(dimn(s), near(2 * K::val(s)), dimn(u), near(2 * K::val(u)), out(ce), R(arr(sq(get<0>(bx.get_lower_bound())), sq(get<0>(bx.get_upper_bound())), sq(get<1>(bx.get_lower_bound())), sq(get<1>(bx.get_upper_bound())))),
            R(arr(sq(std::get<e_xmin>(bn)), sq(std::get<e_xmax>(bn)), sq(std::get<e_ymin>(bn)), sq(std::get<e_ymax>(bn)))), point_in_polygon(mk(a), g), point_in_polygon(mk(d), g));
    });
}
static const long DIRS[8][3] = { { 1, 0, 1 }, { 0, -1, 1 }, { 3, 4, 5 }, { -3, 4, 5 }, { 4, -3, 5 }, { -5, -12, 13 }, { 12, 5, 13 }, { -1, 0, 1 } };
static void tilted(P o, P a, P b, int k, P w) {
    const long* v = DIRS[k]; std::array<long, 3> dv{ { v[0], v[1], v[2] } }; E_ u = K::un(double(v[0]) / v[2], double(v[1]) / v[2]), n = K::un(-double(v[1]) / v[2], double(v[0]) / v[2]);
    if (!(a.x == b.x && a.y == b.y)) record("ray", arr(o, dv, a, b), [&] {
        Q_ x[2], y[2]; x[0] = x[1] = y[0] = y[1] = K::at(0, 0); L_ t = K::len(0), t1 = K::len(0);
        int k1 = (int)ray_segment_intersection(mk(o), u, mk(a), mk(b), t, x, cmp), k2 = (int)ray_segment_intersection(mk(o), u, Seg(mk(a), mk(b)), t1, y, cmp);
        int k3 = (int)ray_segment_intersection(mk(o), u, mk(a), mk(b), cmp), k4 = (int)ray_segment_intersection(mk(o), u, Seg(mk(a), mk(b)), cmp);
        return arr(k1, sq(t), out(x[0]), out(x[1]), k2, sq(t1), out(y[0]), out(y[1]), k3, k4);
    });
    record("ptobb", arr(o, dv, w, a), [&] { Obb ob(mk(o), u, n, K::len(w.x), K::len(w.y)); Q_ z = mk(a), q = point_obb_closest_point(z, ob); return arr(sq(point_obb_distance_sqrd(z, ob)), sd(point_obb_distance(z, ob)), out(q)); });
}
#include "c35gen.hpp"
int main(int argc, char** argv) {
    begin(argc, argv);
    const bool th = opts().thorough; std::size_t salt = 0;
    for (auto& s : script()) { std::vector<Op> ops; for (std::size_t i = 0; i + 4 < s.size(); i += 5) ops.push_back({ { s[i], s[i + 1], s[i + 2], s[i + 3], s[i + 4] } }); history(ops, 1, salt++); }
    Rng r = stream(K::k() == 1 ? "c35" : "c35b");
    for (int n = 0, c = th ? 20000 : 1200; n < c; ++n) { long u = r.chance(50) ? 4 : 1; history(draw(r, u), u, r.in(0, 9)); }
    for (int n = 0, c = th ? 20000 : 1500; n < c; ++n) {
        const long m = r.chance(50) ? 3 : 10; auto p = [&] { return P{ r.in(-m, m), r.in(-m, m) }; };
        std::vector<P> v, w; for (auto& e : rnd_simple(r, r.in(3, 6), (int)-m, (int)m)) v.push_back(P{ (long)e.x, (long)e.y }); for (auto& e : rnd_simple(r, 4, (int)-m, (int)m)) w.push_back(P{ (long)e.x, (long)e.y });
        plane(p(), p(), p(), p(), v, w); tilted(p(), p(), p(), r.in(0, 7), P{ r.in(1, m), r.in(1, m) });
    }
    return end();
}
