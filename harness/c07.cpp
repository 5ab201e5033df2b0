// C07: distances and closest points between basic primitives
#include "gx.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/eberly_segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/aabb_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/distance/segment_obb_distance.hpp>
#include <geometrix/algorithm/distance/distance_compare.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/algorithm/split_segment.hpp>
using namespace vh; using namespace gx;
using A3 = std::array<long, 3>; using seg3 = segment<pt3>; using box = axis_aligned_bounding_box<pt>; using box3 = axis_aligned_bounding_box<pt3>;
static const long DM = 20000;
static double S(double v) { return v * v; }
static double d2(const pt& a, const pt& b) { return S(a[0] - b[0]) + S(a[1] - b[1]); }
static double d2(const pt3& a, const pt3& b) { return S(a[0] - b[0]) + S(a[1] - b[1]) + S(a[2] - b[2]); }
static Q sq(double v, const Frame& f) { return rat(f.isq(v), DM); }
static Raw R(std::string s) { return Raw{ std::move(s) }; }
static void ptseg(P p, P a, P b, const Frame& f) {
    record("ptseg", arr(p, a, b), [&] {
        pt z = mk(p, f), u = mk(a, f), v = mk(b, f); seg s(u, v); double t = 0;
        pt c0 = point_segment_closest_point(z, s), c1 = point_segment_closest_point(z, u, v), c2 = point_segment_closest_point_and_param(z, u, v, t);
        auto cp = [&](const pt& c) { return R(arr(out(c, f), sq(d2(z, c), f))); };
        pt m1 = segment_mid_point(u, v), m2 = segment_mid_point(s);
        return arr(sq(point_segment_distance_sqrd(z, s), f), sq(point_segment_distance_sqrd(z, u, v), f), sq(S(point_segment_distance(z, s)), f), cp(c0), cp(c1), cp(c2), rat(t), out(m1, f), out(m2, f));
    });
}
static pt3 m3(A3 p, const Frame& f) { return pt3(p[0] * f.s + f.tx, p[1] * f.s + f.ty, p[2] * f.s - f.tx); }
static void ptseg3(A3 p, A3 a, A3 b, const Frame& f) {
    record("ptseg3", arr(p, a, b), [&] {
        pt3 z = m3(p, f), u = m3(a, f), v = m3(b, f); seg3 s(u, v); double t = 0;
        return arr(sq(point_segment_distance_sqrd(z, s), f), sq(S(point_segment_distance(z, s)), f), sq(d2(z, point_segment_closest_point(z, s)), f), sq(d2(z, point_segment_closest_point(z, u, v)), f), sq(d2(z, point_segment_closest_point_and_param(z, u, v, t)), f));
    });
}
template <class PT> static std::string close(const PT& a, const PT& b, const PT& c, const PT& d, const Frame& f) {
    double s = -9, t = -9; PT x, y; double r = segment_segment_closest_point(a, b, c, d, s, t, x, y, cmp());
    PT ex = a, ey = c; for (int k = 0; k < dimension_of<PT>::value; ++k) { ex[k] = a[k] + s * (b[k] - a[k]); ey[k] = c[k] + t * (d[k] - c[k]); }
    double w = segment_segment_distance(segment<PT>(a, b), segment<PT>(c, d), cmp()), w2 = segment_segment_distance_sqrd(a, b, c, d, cmp());
    bool agree = std::fabs(w * w - w2) < 1e-9 * (1 + w2) && std::fabs(segment_segment_distance(a, b, c, d, cmp()) - w) < 1e-9 * (1 + w) && std::fabs(segment_segment_distance_sqrd(segment<PT>(a, b), segment<PT>(c, d), cmp()) - w2) < 1e-9 * (1 + w2);
    return arr(sq(r, f), agree ? sq(w * w, f) : Q(), R(arr(s >= 0 && s <= 1, t >= 0 && t <= 1)), R(arr(fix(std::sqrt(d2(x, ex)) / f.s, 1e6), fix(std::sqrt(d2(y, ey)) / f.s, 1e6))), sq(d2(x, y), f));
}
static void segseg(P a, P b, P c, P d, const Frame& f) { record("segseg", arr(a, b, c, d), [&] { return close(mk(a, f), mk(b, f), mk(c, f), mk(d, f), f); }); }
static void eberly(P a, P b, P c, P d, const Frame& f) { record("eberly", arr(a, b, c, d), [&] { return arr(sq(eberly_segment_segment_distance_sqrd(seg(mk(a, f), mk(b, f)), seg(mk(c, f), mk(d, f))), f)); }); }
static void ptline(P p, P a, P b, const Frame& f) {
    record("ptline", arr(p, a, b), [&] {
        line<pt> l(mk(a, f), mk(b, f)); double s = signed_point_line_distance(mk(p, f), l), u = point_line_distance(mk(p, f), l);
        return arr(s > 1e-9 ? 1 : s < -1e-9 ? -1 : 0, sq(s * s, f), u >= 0 ? sq(u * u, f) : Q());
    });
}
static void ptpt(P a, P b, P c, const Frame& f) {
    record("ptpt", arr(a, b, c), [&] { distance_compare<pt, cmp_t> dc(mk(c, f), cmp()); return arr(sq(point_point_distance_sqrd(mk(a, f), mk(b, f)), f), sq(S(point_point_distance(mk(a, f), mk(b, f))), f), dc(mk(a, f), mk(b, f))); });
}
static void ptpt3(A3 a, A3 b, A3 c, const Frame& f) {
    record("ptpt", arr(a, b, c), [&] { distance_compare<pt3, cmp_t> dc(m3(c, f), cmp()); return arr(sq(point_point_distance_sqrd(m3(a, f), m3(b, f)), f), sq(S(point_point_distance(m3(a, f), m3(b, f))), f), dc(m3(a, f), m3(b, f))); });
}
template <int N, std::size_t... K> static point<double, N> mn(const std::array<long, N>& a, const Frame& f, std::index_sequence<K...>) { return point<double, N>((a[K] * f.s + (K % 2 ? f.ty : f.tx))...); }
template <int N> static void ptptn(Rng& r, const Frame& f) {       // points of any dimension
    std::array<long, N> a, b; for (auto& v : a) v = r.in(-4, 4); for (auto& v : b) v = r.in(-4, 4);
    record("ptptn", arr(a, b), [&] { auto x = mn<N>(a, f, std::make_index_sequence<N>()), y = mn<N>(b, f, std::make_index_sequence<N>()); return arr(sq(point_point_distance_sqrd(x, y), f), sq(S(point_point_distance(x, y)), f)); });
}
static void ptbox(P p, P a, P b, const Frame& f) {
    record("ptbox", arr(p, a, b), [&] { box u(mk(a, f), mk(b, f)); pt z = mk(p, f); pt q = point_aabb_closest_point(z, u); return arr(sq(point_aabb_distance_sqrd(z, u), f), sq(S(point_aabb_distance(z, u)), f), R(arr(fix(f.ix(q[0]), 1), fix(f.iy(q[1]), 1)))); });
}
static void ptbox3(A3 p, A3 a, A3 b, const Frame& f) {
    record("ptbox", arr(p, a, b), [&] { box3 u(m3(a, f), m3(b, f)); pt3 z = m3(p, f); pt3 q = point_aabb_closest_point(z, u); return arr(sq(point_aabb_distance_sqrd(z, u), f), sq(S(point_aabb_distance(z, u)), f), R(arr(fix(f.ix(q[0]), 1), fix(f.iy(q[1]), 1), fix((q[2] + f.tx) / f.s, 1)))); });
}
static void boxbox(P a, P b, P c, P d, const Frame& f) {
    record("boxbox", arr(a, b, c, d), [&] { box u(mk(a, f), mk(b, f)), v(mk(c, f), mk(d, f)); return arr(sq(aabb_aabb_distance_sqrd(u, v), f), sq(S(aabb_aabb_distance(u, v)), f)); });
}
static void boxbox3(A3 a, A3 b, A3 c, A3 d, const Frame& f) {
    record("boxbox", arr(a, b, c, d), [&] { box3 u(m3(a, f), m3(b, f)), v(m3(c, f), m3(d, f)); return arr(sq(aabb_aabb_distance_sqrd(u, v), f), sq(S(aabb_aabb_distance(u, v)), f)); });
}
static void segseg3(A3 a, A3 b, A3 c, A3 d, const Frame& f) { record("segseg3", arr(a, b, c, d), [&] { return arr(sq(eberly_segment_segment_distance_sqrd(seg3(m3(a, f), m3(b, f)), seg3(m3(c, f), m3(d, f))), f)); }); }
static obb_double_2d mkobb(P c, A3 v, P w, const Frame& f) { double x = double(v[0]) / v[2], y = double(v[1]) / v[2]; return obb_double_2d(mk(c, f), vec(x, y), vec(-y, x), f.len(w.x), f.len(w.y)); }
static void ptobb(P c, A3 v, P w, P p, const Frame& f) {
    record("ptobb", arr(c, v, w, p), [&] { auto o = mkobb(c, v, w, f); pt z = mk(p, f), q = point_obb_closest_point(z, o); return arr(sq(point_obb_distance_sqrd(z, o), f), sq(S(point_obb_distance(z, o)), f), out(q, f)); });
}
static void segobb(P c, A3 v, P w, P a, P b, const Frame& f) {
    record("segobb", arr(c, v, w, a, b), [&] { auto o = mkobb(c, v, w, f); seg s(mk(a, f), mk(b, f)); return arr(rat(f.isq(segment_obb_distance_sqrd(s, o, cmp())), 200000), rat(f.isq(S(segment_obb_distance(s, o, cmp()))), 200000)); });
}
static void split(P a, P b, long m, const Frame& f) {
    record("split", arr(a, b, m), [&] { std::vector<Raw> o; for (auto& s : split_segment(seg(mk(a, f), mk(b, f)), f.len(m))) o.push_back(R(arr(out(s.get_start(), f), out(s.get_end(), f), sq(d2(s.get_start(), s.get_end()), f)))); return js(o); });
}
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 3; far_ok() = true;
    const bool th = opts().thorough;
    std::vector<P> g; for (int x = 0; x < 4; ++x) for (int y = 0; y < 4; ++y) g.push_back({ x, y });
    std::uint64_t k = 0;
    for (P a : g) for (P b : g) for (P p : g) if (mine(k++)) { ptseg(p, a, b, frames()[k % 7]); if (a != b) ptline(p, a, b, frames()[k % 5]); }
    k = 0;
    for (P a : g) for (P b : g) for (P c : g) for (P d : g) { ++k; if ((th || k % 4 == opts().seed % 4) && mine(k / 4)) { segseg(a, b, c, d, frames()[k % 7]); if (a != b && c != d) eberly(a, b, c, d, frames()[k % 7]); } }
    std::vector<A3> dirs = { { 1, 0, 1 }, { 0, 1, 1 }, { 3, 4, 5 }, { -4, 3, 5 }, { -3, -4, 5 }, { 4, -3, 5 }, { 5, 12, 13 }, { -12, 5, 13 } };
    Rng r = stream("c07");
    int n = th ? 60000 : 2500;
    for (int i = 0; i < n; ++i) {
        int Rg = r.pick(std::vector<int>{ 2, 4, 9 }); Frame f = rnd_frame(r);
        P a = rnd_pt(r, -Rg, Rg), b = rnd_pt(r, -Rg, Rg), c = rnd_pt(r, -Rg, Rg), d = rnd_pt(r, -Rg, Rg);
        ptseg(c, a, b, f); if (a != b) ptline(c, a, b, frames()[r.next() % 5]); segseg(a, b, c, d, f); if (a != b && c != d) eberly(a, b, c, d, f);
        ptpt(a, b, c, f);
        P h{ c.x + r.in(0, Rg), c.y + r.in(0, Rg) }, h2{ a.x + r.in(0, Rg), a.y + r.in(0, Rg) };
        ptbox(d, c, h, f); boxbox(a, h2, c, h, f);
        auto q = [&] { return A3{ r.in(-3, 3), r.in(-3, 3), r.in(-3, 3) }; };
        A3 u = q(), v = q(), w = q(), z = q(); const Frame& f3 = frames()[r.next() % 6];
        ptseg3(u, v, w, f3); ptpt3(u, v, w, f3);
        A3 hi{ v[0] + r.in(0, 3), v[1] + r.in(0, 3), v[2] + r.in(0, 3) }; ptbox3(u, v, hi, f3);
        A3 hj{ u[0] + r.in(0, 3), u[1] + r.in(0, 3), u[2] + r.in(0, 3) }; boxbox3(u, hj, v, hi, f3);
        { auto k3 = [&] { return A3{ r.in(-2, 2), r.in(-2, 2), r.in(-2, 2) }; }; A3 s1 = k3(), s2 = k3(), s3 = k3(), s4 = k3(); if (s1 != s2 && s3 != s4) segseg3(s1, s2, s3, s4, f3); }
        ptptn<3>(r, f3); ptptn<4>(r, f3); ptptn<5>(r, f3); ptptn<6>(r, f3);
        A3 dv = r.pick(dirs); int RO = dv[2] == 13 ? 2 : 4; P w2{ r.in(1, RO), r.in(1, RO) };
        P e = rnd_pt(r, -2, 2), s1 = rnd_pt(r, -RO - 3, RO + 3), s2 = rnd_pt(r, -RO - 3, RO + 3);
        ptobb(e, dv, w2, s1, frames()[r.next() % 6]);
        if (dv[2] != 13) { e = rnd_pt(r, -1, 1); s1 = rnd_pt(r, -4, 4); s2 = rnd_pt(r, -4, 4); w2 = { r.in(1, 2), r.in(1, 2) }; if (s1 != s2) segobb(e, dv, w2, s1, s2, frames()[r.next() % 6]); }
        if (a != b) split(a, b, r.in(1, 6), f);
    }
    return end();
}
