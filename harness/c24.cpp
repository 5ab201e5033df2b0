// C24: circles, spheres and capsules against rays, segments, boxes and each other, at rest and moving
#include "gx.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/plane_traits.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_capsule_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_polyline_intersection.hpp>
using namespace vh; using namespace gx;
using A3 = std::array<long, 3>; using box = axis_aligned_bounding_box<pt>; using box3 = axis_aligned_bounding_box<pt3>; using vec3 = vector_double_3d;
using s2 = sphere<2, pt>; using s3 = sphere<3, pt3>;
static Raw R(std::string s) { return Raw{ std::move(s) }; }
// points of the scene in plain doubles (frame undone), dimension-generic
template <int N> using D = std::array<double, N>;
static D<2> un(const pt& p, const Frame& f) { return { { f.ix(p[0]), f.iy(p[1]) } }; }
static D<3> un(const pt3& p, const Frame& f) { return { { f.ix(p[0]), f.iy(p[1]), (p[2] + f.tx) / f.s } }; }
static pt3 m3(A3 p, const Frame& f) { return pt3(p[0] * f.s + f.tx, p[1] * f.s + f.ty, p[2] * f.s - f.tx); }
static vec v2(P v, const Frame& f) { return vec(v.x * f.s, v.y * f.s); }
static vec3 v3(A3 v, const Frame& f) { return vec3(v[0] * f.s, v[1] * f.s, v[2] * f.s); }
static D<2> dd(P p) { return { { double(p.x), double(p.y) } }; }
static D<3> dd(A3 p) { return { { double(p[0]), double(p[1]), double(p[2]) } }; }
template <class V> static double dt(const V& a, const V& b) { double s = 0; for (std::size_t k = 0; k < a.size(); ++k) s += a[k] * b[k]; return s; }
template <class V> static V mn(const V& a, const V& b) { V r; for (std::size_t k = 0; k < a.size(); ++k) r[k] = a[k] - b[k]; return r; }
template <class V> static V al(const V& a, double t, const V& d) { V r; for (std::size_t k = 0; k < a.size(); ++k) r[k] = a[k] + t * d[k]; return r; }
static int sg(double v) { return v > 2e-6 ? 1 : v < -2e-6 ? -1 : 0; }
template <class V> static V near_seg(const V& p, const V& a, const V& b) { V u = mn(b, a); double e = dt(mn(p, a), u), l = dt(u, u); double t = l == 0 || e <= 0 ? 0 : e >= l ? 1 : e / l; return al(a, t, u); }
template <class V> static V near_box(V p, const V& lo, const V& hi) { for (std::size_t k = 0; k < p.size(); ++k) p[k] = std::min(std::max(p[k], lo[k]), hi[k]); return p; }
template <class V> static bool same(const V& a, const V& b) { V d = mn(a, b); return dt(d, d) < 1e-12 * (1 + dt(a, a)); }
template <class V> static double q2(const V& a, const V& b) { V d = mn(a, b); return dt(d, d); }
static Q rq(double v) { return rat(v, 4000); }
// <<hit, sign of t, squared distance of c + t v from the set, sign of its change, q where it should be?>>
template <class V, class N> static std::string obs(bool hit, double t, const V& c, const V& v, const V& q, N near) {
    if (!hit) return arr(false, 0, Q(), 0, true);
    V ct = al(c, t, v); V n = near(ct);
    return arr(true, sg(t), rq(q2(ct, n)), sg(dt(mn(ct, n), v) / std::sqrt(dt(v, v))), same(q, ct));
}
template <class A, class B> static void cc_pts(const B& r, int& st, std::vector<Raw>& o, pt a, pt b, const Frame& f) {
    D<2> A0 = un(a, f), B0 = un(b, f), u = mn(B0, A0);
    st = int(r.State);
    for (auto* p : { &r.IntersectionPoint0, &r.IntersectionPoint1 }) if (*p) { D<2> s = un(**p, f), w = mn(s, A0); o.push_back(R(arr(rq(q2(s, A0)), rq(q2(s, B0)), sg(u[0] * w[1] - u[1] * w[0])))); }
}
static void cc(P a, long r, P b, long s, const Frame& f) {
    record("cc", arr(a, r, b, s), [&] {
        s2 A(mk(a, f), f.len(r)), B(mk(b, f), f.len(s)); int x, y; std::vector<Raw> o, p;
        cc_pts<int>(circle_circle_intersection(A, B, cmp()), x, o, mk(a, f), mk(b, f), f);
        cc_pts<int>(sphere_sphere_intersection(A, B, cmp()), y, p, mk(a, f), mk(b, f), f);
        return arr(x, o, y, p);
    });
}
static void rs(P p, P d, P c, long r, const Frame& f) {
    record("rs", arr(p, d, c, r), [&] {
        double h = std::sqrt(double(d.x * d.x + d.y * d.y)), t = -7; pt q; vec u(d.x / h, d.y / h);
        bool b = ray_sphere_intersection(mk(p, f), u, s2(mk(c, f), f.len(r)), t, q, cmp());
        D<2> v{ { u[0], u[1] } }; return obs(b, f.ilen(t), dd(p), v, un(q, f), [&](const D<2>&) { return dd(c); });
    });
}
static void rs3(A3 p, A3 d, A3 c, long r, const Frame& f) {
    record("rs", arr(p, d, c, r), [&] {
        double h = std::sqrt(double(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])), t = -7; pt3 q; vec3 u(d[0] / h, d[1] / h, d[2] / h);
        bool b = ray_sphere_intersection(m3(p, f), u, s3(m3(c, f), f.len(r)), t, q, cmp());
        D<3> v{ { u[0], u[1], u[2] } }; return obs(b, f.ilen(t), dd(p), v, un(q, f), [&](const D<3>&) { return dd(c); });
    });
}
static void sg1(P a, P b, P c, long r, const Frame& f, int how) {
    record("sg1", arr(a, b, c, r), [&] {
        double t = -7; pt q(-99, -99); s2 s(mk(c, f), f.len(r)); bool h;
        if (how == 0) h = segment_sphere_intersection(seg(mk(a, f), mk(b, f)), s, t, q, cmp());
        else h = segment_sphere_intersection(mk(a, f), mk(b, f), s, t, q, cmp());
        D<2> v = mn(dd(b), dd(a)); if (a == b) v = { { 1, 0 } };
        return obs(h, t, dd(a), v, un(q, f), [&](const D<2>&) { return dd(c); });
    });
}
template <class PT, class A, class S> static void sg2(A a, A b, A c, long r, PT pa, PT pb, const S& s, const Frame& f) {
    record("sg2", arr(a, b, c, r), [&] {
        double t[2] = { -7, -7 }; PT q[2]; auto h = segment_sphere_intersection(pa, pb, s, t, q, cmp());
        std::vector<Raw> o; bool in[2] = { h.is_t0_intersecting(), h.is_t1_intersecting() };
        for (int k = 0; k < 2; ++k) { auto z = un(q[k], f); o.push_back(R(arr(in[k], (t[k] > 0) - (t[k] < 0), (t[k] > 1) - (t[k] < 1), rq(q2(z, dd(c))), same(z, al(dd(a), t[k], mn(dd(b), dd(a))))))); }
        return arr((int)(std::uint32_t)h, (bool)h, o);
    });
}
// every edge of a chain that meets a circle, in order, until the visitor has had enough
static void spl(const std::vector<P>& w, P c, long r, long stop, const Frame& f) {
    record("spl", arr(w, c, r, stop), [&] {
        std::vector<Raw> v; long n = 0;
        bool b = sphere_polyline_intersect(s2(mk(c, f), f.len(r)), mkline(w, f), [&](segment_sphere_intersection_result h, std::size_t i, std::size_t j, double t0, const pt& q0, double t1, const pt& q1) {
            std::vector<Raw> o; bool in[2] = { h.is_t0_intersecting(), h.is_t1_intersecting() }; double t[2] = { t0, t1 }; const pt* q[2] = { &q0, &q1 };
            for (int k = 0; k < 2; ++k) { auto z = un(*q[k], f); o.push_back(R(arr(in[k], (t[k] > 0) - (t[k] < 0), (t[k] > 1) - (t[k] < 1), rq(q2(z, dd(c))), same(z, al(dd(w[i]), t[k], mn(dd(w[j]), dd(w[i]))))))); }
            v.push_back(R(arr((long)i + 1, (long)j + 1, R(arr((int)(std::uint32_t)h, (bool)h, o))))); return ++n == stop;
        }, cmp());
        return arr(b, v);
    });
}
static void cap(P a, P b, P p, P q, long r, const Frame& f) {
    record("cap", arr(a, b, p, q, r), [&] {
        double t = -7; pt x; bool h = segment_capsule_intersection(mk(a, f), mk(b, f), mk(p, f), mk(q, f), f.len(r), t, x, cmp());
        return obs(h, t, dd(a), mn(dd(b), dd(a)), un(x, f), [&](const D<2>& z) { return near_seg(z, dd(p), dd(q)); });
    });
}
static void sab(P c, long r, P lo, P hi, const Frame& f) {
    record("sab", arr(c, r, lo, hi), [&] { box b(mk(lo, f), mk(hi, f)); s2 s(mk(c, f), f.len(r)); pt q; bool x = sphere_aabb_intersection(s, b), y = sphere_aabb_intersection(s, b, q); return arr(x, y, R(arr(fix(f.ix(q[0]), 1), fix(f.iy(q[1]), 1)))); });
}
static void sab3(A3 c, long r, A3 lo, A3 hi, const Frame& f) {
    record("sab", arr(c, r, lo, hi), [&] { box3 b(m3(lo, f), m3(hi, f)); s3 s(m3(c, f), f.len(r)); pt3 q; bool x = sphere_aabb_intersection(s, b), y = sphere_aabb_intersection(s, b, q); auto z = un(q, f); return arr(x, y, R(arr(fix(z[0], 1), fix(z[1], 1), fix(z[2], 1)))); });
}
static obb_double_2d mkobb(P c, A3 v, P w, const Frame& f) { double x = double(v[0]) / v[2], y = double(v[1]) / v[2]; return obb_double_2d(mk(c, f), vec(x, y), vec(-y, x), f.len(w.x), f.len(w.y)); }
static void sob(P c, A3 v, P w, P p, long r, const Frame& f) { record("sob", arr(c, v, w, p, r), [&] { return arr(sphere_obb_intersection(s2(mk(p, f), f.len(r)), mkobb(c, v, w, f))); }); }
struct my_plane { vec3 n; double d; const vec3& get_normal_vector() const { return n; } double get_distance_to_origin() const { return d; } };
template <class Rs> static std::string mpl_out(const Rs& h, double t, const std::string& q) { return arr((bool)h, h.is_penetrating(), h.is_moving_away(), rat(t), R(q)); }
static void mpl(P c, long r, P v, P a, P b, long h, const Frame& f) {
    P n{ -(b.y - a.y), b.x - a.x }; long k = n.x * a.x + n.y * a.y;
    record("mpl", arr(c, r, v, n, h, k), [&] {
        line<pt> l(mk(a, f), mk(b, f)); double t = -7; pt q; auto x = moving_sphere_plane_intersection(s2(mk(c, f), f.len(r)), v2(v, f), l, t, q, cmp());
        return mpl_out(x, t, js(out(q, f)));
    });
}
static void mpl3(A3 c, long r, A3 v, A3 n, long h, long k, const Frame& f) {
    record("mpl", arr(c, r, v, n, h, k), [&] {
        my_plane pl{ vec3(double(n[0]) / h, double(n[1]) / h, double(n[2]) / h), (k * f.s + n[0] * f.tx + n[1] * f.ty - n[2] * f.tx) / h };
        double t = -7; pt3 q; auto x = moving_sphere_plane_intersection(s3(m3(c, f), f.len(r)), v3(v, f), pl, t, q, cmp()); auto z = un(q, f);
        return mpl_out(x, t, js(ratp3(z[0], z[1], z[2], 20000)));
    });
}
static Raw contact(bool h, const D<2>& c, double t, const D<2>& v, const D<2>& q, const D<2>& n) { if (!h) return R(arr(Q(), Q())); return R(arr(rq(q2(q, al(c, t, v))), rq(q2(q, n)))); }
static void msg(P c, long r, P v, P a, P b, const Frame& f) {
    record("msg", arr(c, r, v, a, b), [&] {
        double t = -7; pt q(0, 0); auto h = moving_sphere_segment_intersection(s2(mk(c, f), f.len(r)), v2(v, f), seg(mk(a, f), mk(b, f)), t, q, cmp());
        D<2> z = un(q, f); auto ns = [&](const D<2>& x) { return near_seg(x, dd(a), dd(b)); }; bool hit = h.is_intersecting();
        std::string o = obs(hit, t, dd(c), dd(v), al(dd(c), t, dd(v)), ns);
        return arr(R(o), contact(hit, dd(c), t, dd(v), z, ns(z)), R(arr(h.is_endpoint(), hit ? rq(std::min(q2(z, dd(a)), q2(z, dd(b)))) : Q(), hit ? sg(dt(mn(al(dd(c), t, dd(v)), z), mn(dd(b), dd(a)))) : 0)));
    });
}
static void mab(P c, long r, P v, P lo, P hi, const Frame& f) {
    record("mab", arr(c, r, v, lo, hi), [&] {
        double t = -7; pt q(0, 0); bool hit = moving_sphere_aabb_intersection(s2(mk(c, f), f.len(r)), v2(v, f), box(mk(lo, f), mk(hi, f)), t, q, cmp());
        D<2> z = un(q, f); auto nb = [&](const D<2>& x) { return near_box(x, dd(lo), dd(hi)); };
        return arr(R(obs(hit, t, dd(c), dd(v), al(dd(c), t, dd(v)), nb)), contact(hit, dd(c), t, dd(v), z, nb(z)));
    });
}
static void mob(P o, A3 ax, P w, P c, long r, P v, const Frame& f) {
    record("mob", arr(o, ax, w, c, r, v), [&] {
        double t = -7; pt q(0, 0); auto x = moving_sphere_obb_intersection(s2(mk(c, f), f.len(r)), v2(v, f), mkobb(o, ax, w, f), t, q, cmp()); bool hit = x.is_intersecting();
        D<2> z = un(q, f), e0{ { double(ax[0]) / ax[2], double(ax[1]) / ax[2] } }, e1{ { -e0[1], e0[0] } };
        auto nb = [&](const D<2>& p) { D<2> d = mn(p, dd(o)); double a = std::min(std::max(dt(d, e0), -double(w.x)), double(w.x)), b = std::min(std::max(dt(d, e1), -double(w.y)), double(w.y)); return al(al(dd(o), a, e0), b, e1); };
        return arr(R(obs(hit, t, dd(c), dd(v), al(dd(c), t, dd(v)), nb)), contact(hit, dd(c), t, dd(v), z, nb(z)));
    });
}
template <class PT, class S, class A, class V> static void mss(A c0, long r0, A c1, long r1, A w0, A w1, const S& a, const S& b, const V& v0, const V& v1, const Frame& f) {
    record("mss", arr(c0, r0, c1, r1, w0, w1), [&] {
        double t = -7; PT q; for (int k = 0; k < dimension_of<PT>::value; ++k) q[k] = 0;
        bool h = moving_sphere_sphere_intersection(a, b, v0, v1, t, q, cmp()), h2 = moving_sphere_sphere_intersection(a, b, v0, v1, cmp());
        auto v = mn(dd(w1), dd(w0)); auto C0 = al(dd(c0), t, dd(w0)), C1 = al(dd(c1), t, dd(w1)); auto z = un(q, f); auto at0 = dd(c0); bool move = dt(v, v) > 0; auto vv = v; if (!move) vv[0] = 1;
        return arr(R(obs(h, t, dd(c1), vv, al(dd(c1), t, vv), [&](const decltype(v)&) { return at0; })), h2, h ? R(arr(rq(q2(z, C0)), rq(q2(z, C1)))) : R(arr(Q(), Q())));
    });
}
int main(int argc, char** argv) {
    begin(argc, argv);
    const bool th = opts().thorough;
    Rng r = stream("c24"); Frame dec{ 0.1, 0, 0 }, dec2{ 0.3, 0.1, -0.7 };
    std::vector<A3> dirs = { { 1, 0, 1 }, { 0, 1, 1 }, { 3, 4, 5 }, { -4, 3, 5 }, { -3, -4, 5 }, { 4, -3, 5 }, { -1, 0, 1 } };
    std::vector<std::array<long, 4>> norms = { { { 1, 0, 0, 1 } }, { { 0, -1, 0, 1 } }, { { 0, 0, 1, 1 } }, { { 1, 2, 2, 3 } }, { { -2, 1, 2, 3 } }, { { 2, -2, 1, 3 } } };
    int n = th ? 60000 : 1500;
    for (int i = 0; i < n; ++i) {
        Frame f = frames()[r.next() % 6], f0 = r.chance(20) ? dec : r.chance(20) ? dec2 : f;
        int K = r.pick(std::vector<int>{ 3, 6 });
        auto p = [&](int k) { return rnd_pt(r, -k, k); };
        auto vel = [&](int k) { P v; do v = rnd_pt(r, -k, k); while (v == P{ 0, 0 }); return v; };
        auto p3 = [&](int k) { return A3{ { r.in(-k, k), r.in(-k, k), r.in(-k, k) } }; };
        auto vel3 = [&](int k) { A3 v; do v = p3(k); while (v == A3{ { 0, 0, 0 } }); return v; };
        auto rad = [&] { return r.in(1, K == 3 ? 3 : 5); };
        P a = p(K), b = p(K), c = p(K), d = p(K);
        cc(a, rad(), b, rad(), f0);
        { P u = r.pick(std::vector<P>{ { 3, 4 }, { 4, -3 }, { 5, 0 }, { 0, -1 }, { 2, 0 } }); long l = (long)std::lround(std::hypot(u.x, u.y)); long r1 = r.in(1, 5); long r0 = r.chance(50) ? r1 + l : l > r1 ? l - r1 : r1 + l; P e{ a.x + u.x, a.y + u.y }; if (r.chance(50)) cc(a, r0, e, r1, f0); else cc(a, r1, e, r0, f0); }
        rs(a, vel(4), c, rad(), f); rs3(p3(4), vel3(2), p3(4), rad(), frames()[r.next() % 5]);
        sg1(a, r.chance(5) ? a : b, c, rad(), f, i % 2);
        { std::vector<P> w{ a, b }; if (r.chance(90)) w.push_back(c); for (long q = r.in(0, 4); q > 0; --q) w.push_back(rnd_pt(r, -4, 4)); bool ok = true; for (std::size_t q = 1; q < w.size(); ++q) ok = ok && w[q] != w[q - 1]; if (ok) spl(w, rnd_pt(r, -3, 3), rad(), r.in(1, 4), f); }
        { long rr = rad(); if (a != b) sg2<pt>(a, b, c, rr, mk(a, f), mk(b, f), s2(mk(c, f), f.len(rr)), f); A3 x = p3(4), y = p3(4), z = p3(4); Frame g = frames()[r.next() % 5]; if (x != y) sg2<pt3>(x, y, z, rr, m3(x, g), m3(y, g), s3(m3(z, g), g.len(rr)), g); }
        if (a != b && c != d) cap(a, b, c, d, r.in(1, 4), f);
        { P u = vel(2); long k = r.in(1, 4), m = r.in(-4, 4); P e{ c.x + u.x, c.y + u.y }, s{ a.x + m * u.x, a.y + m * u.y }, g{ s.x + k * u.x, s.y + k * u.y }; if (r.chance(50)) std::swap(s, g); cap(s, g, c, e, r.in(1, 4), f); }
        P hi{ c.x + r.in(0, 4), c.y + r.in(0, 4) };
        sab(a, rad(), c, hi, f);
        { A3 lo = p3(3), h3{ { lo[0] + r.in(0, 3), lo[1] + r.in(0, 3), lo[2] + r.in(0, 3) } }; sab3(p3(5), r.in(1, 4), lo, h3, frames()[r.next() % 5]); }
        A3 ax = r.pick(dirs); P w{ r.in(1, 3), r.in(1, 3) }, o = p(2);
        sob(o, ax, w, p(6), r.in(1, 4), f);
        { P e{ b.x + ax[0], b.y + ax[1] }; mpl(a, rad(), vel(4), b, e, ax[2], f); auto nn = r.pick(norms); mpl3(p3(4), rad(), vel3(3), { { nn[0], nn[1], nn[2] } }, nn[3], r.in(-5, 5), frames()[r.next() % 5]); }
        auto toward = [&](P from, P to) { P v{ sgn(to.x - from.x) * r.in(0, 4), sgn(to.y - from.y) * r.in(0, 4) }; return v == P{ 0, 0 } ? vel(3) : v; };
        if (c != d) { msg(a, r.in(1, 4), r.chance(60) ? toward(a, c) : vel(4), c, d, f); }
        hi = { c.x + r.in(1, 4), c.y + r.in(1, 4) };
        { P s = p(8); mab(s, r.in(1, 4), r.chance(70) ? toward(s, c) : vel(4), c, hi, f); }
        { P s = p(8); mob(o, ax, w, s, r.in(1, 4), r.chance(70) ? toward(s, o) : vel(4), f); }
        { long r0 = r.in(1, 3), r1 = r.in(1, 3); P v0 = p(2), v1 = r.chance(10) ? v0 : p(2); mss<pt>(a, r0, b, r1, v0, v1, s2(mk(a, f), f.len(r0)), s2(mk(b, f), f.len(r1)), v2(v0, f), v2(v1, f), f); }
        { long r0 = r.in(1, 3), r1 = r.in(1, 3); A3 x = p3(4), y = p3(4), v0 = p3(1), v1 = p3(1); Frame g = frames()[r.next() % 5]; mss<pt3>(x, r0, y, r1, v0, v1, s3(m3(x, g), g.len(r0)), s3(m3(y, g), g.len(r1)), v3(v0, g), v3(v1, g), g); }
    }
    return end();
}
