// C06: triangles and hyperplanes
#include "gx.hpp"
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_triangle_intersection.hpp>
#include <geometrix/algorithm/eberly_triangle_aabb_intersection.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/algorithm/intersection/segment_plane_intersection.hpp>
#include <geometrix/algorithm/classify_simplex_to_plane.hpp>
using namespace vh; using namespace gx;
using A3 = std::array<long, 3>;
// a plane in space as a user of the library would model it: only the documented access traits
struct my_plane { vector_double_3d n; double d; };
namespace geometrix {
template <> struct hyperplane_access_traits<my_plane> { static vector_double_3d get_normal_vector(const my_plane& p) { return p.n; } static double get_distance_to_origin(const my_plane& p) { return p.d; } };
}
static void segtri(P a, P b, P c, P d, P e, const Frame& f) {
    record("segtri", arr(a, b, c, d, e), [&] {
        pt x[3] = { pt(0, 0), pt(0, 0), pt(0, 0) };
        auto n = segment_triangle_intersect(mk(a, f), mk(b, f), mk(c, f), mk(d, f), mk(e, f), x, cmp());
        std::vector<QP> o; for (std::size_t i = 0; i < n && i < 3; ++i) o.push_back(out(x[i], f));
        return arr((long)n, o, segment_triangle_intersect(mk(a, f), mk(b, f), mk(c, f), mk(d, f), mk(e, f)), segment_triangle_intersect(seg(mk(a, f), mk(b, f)), mk(c, f), mk(d, f), mk(e, f)));
    });
}
static void tribox(P a, P b, P c, P lo, P hi, const Frame& f) {
    record("tribox", arr(a, b, c, lo, hi), [&] { return arr(eberly_triangle_aabb_intersection_2d(mk(a, f), mk(b, f), mk(c, f), axis_aligned_bounding_box<pt>(mk(lo, f), mk(hi, f)), cmp())); });
}
static void segplane(P a, P b, P u, P v) {
    P n{ -(v.y - u.y), v.x - u.x };
    record("segplane", arr(a, b, n, n.x * u.x + n.y * u.y), [&] {
        Frame f = frames()[0]; line<pt> l(mk(u, f), mk(v, f)); double t = 0; pt q(0, 0); bool h = segment_plane_intersection(mk(a, f), mk(b, f), l, t, q);
        return arr(h, rat(t), out(q, f));
    });
}
static void segplane3(A3 a, A3 b, A3 n, long d) {
    record("segplane3", arr(a, b, n, d), [&] {
        my_plane p{ vector_double_3d(n[0], n[1], n[2]), (double)d }; double t = 0; pt3 q(0, 0, 0);
        bool h = segment_plane_intersection(pt3(a[0], a[1], a[2]), pt3(b[0], b[1], b[2]), p, t, q);
        return arr(h, rat(t), ratp3(q[0], q[1], q[2], 400));
    });
}
static void classify(P a, P b, P u, P v, const Frame& f) {
    record("classify", arr(a, b, u, v), [&] {
        auto h = make_hyperplane(seg(mk(u, f), mk(v, f)));
        return arr((int)classify_simplex_to_plane(seg(mk(a, f), mk(b, f)), h, cmp()), (int)classify_point_to_plane(mk(a, f), h, cmp()));
    });
}
static void classifyN(const std::vector<P>& w, P u, P v, const Frame& f) {
    record("classifyN", arr(w, u, v), [&] {
        auto h = make_hyperplane(seg(mk(u, f), mk(v, f)));
        return arr((int)classify_simplex_to_plane(mkline(w, f), h, cmp()), (int)classify_simplex_to_plane(mkpoly(w, f), h, cmp()));
    });
}
static pt3 m3(A3 p, const Frame& f) { return pt3(p[0] * f.s + f.tx, p[1] * f.s + f.ty, p[2] * f.s - f.tx); }
static A3 cr(A3 u, A3 v) { return { u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0] }; }
static A3 sub(A3 a, A3 b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
static long dt(A3 u, A3 v) { return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]; }
// a point in the plane of a triangle of space
static void tri3(A3 p, A3 a, A3 b, A3 c, const Frame& f) {
    record("tri3", arr(p, a, b, c), [&] { return arr(point_in_triangle(m3(p, f), m3(a, f), m3(b, f), m3(c, f), cmp())); });
}
// the library's own plane, through three points or a point and two directions
static void plane3(A3 a, A3 b, A3 c, A3 p, A3 q, const Frame& f) {
    A3 n = cr(sub(b, a), sub(c, a)); long d = dt(n, a), sp = dt(n, p) - d, sq = dt(n, q) - d;
    record("classify3", arr(p, q, n, d), [&] {
        plane<pt3> h(m3(a, f), m3(b, f), m3(c, f)); pt3 u = m3(p, f), v = m3(q, f);
        return arr((int)classify_simplex_to_plane(segment<pt3>(u, v), h, cmp()), (int)classify_point_to_plane(u, h, cmp()));
    });
    if (sp && sq && sp != sq) record("segplane3", arr(p, q, n, d), [&] {
        plane<pt3> h = make_plane(pt3(a[0], a[1], a[2]), vector_double_3d(b[0] - a[0], b[1] - a[1], b[2] - a[2]), vector_double_3d(c[0] - a[0], c[1] - a[1], c[2] - a[2])); double t = 0; pt3 x(0, 0, 0);
        bool k = segment_plane_intersection(pt3(p[0], p[1], p[2]), pt3(q[0], q[1], q[2]), h, t, x);
        return arr(k, rat(t), ratp3(x[0], x[1], x[2], 400));
    });
}
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 3;
    const bool th = opts().thorough;
    std::vector<P> g; for (int x = 0; x < 4; ++x) for (int y = 0; y < 4; ++y) g.push_back({ x, y });
    std::uint64_t k = 0;
    for (P a : g) for (P b : g) if (a != b) for (P u : g) for (P v : g) if (u != v) { ++k; if ((th || k % 8 == opts().seed % 8) && mine(k / 8)) { classify(a, b, u, v, frames()[k % 7]); segplane(a, b, u, v); } }
    // segments against fixed small triangles, exhaustively
    std::vector<P> G; for (int x = -1; x < 5; ++x) for (int y = -1; y < 5; ++y) G.push_back({ x, y });
    Rng r = stream("c06");
    int nt = th ? 60 : 4;
    for (int i = 0; i < nt; ++i) {
        P c = r.pick(g), d = r.pick(g), e = r.pick(g); if (cross(c, d, e) == 0) { --i; continue; }
        for (P a : G) for (P b : G) if (a != b && (th || r.chance(45))) segtri(a, b, c, d, e, frames()[0]);
    }
    for (int i = 0; i < nt * 4; ++i) {
        P lo = r.pick(g), hi = lo; hi.x += r.in(1, 3); hi.y += r.in(1, 3);
        P a = rnd_pt(r, -3, 6);
        for (P b : G) for (P c : g) if (cross(a, b, c) != 0 && (th || r.chance(35))) tribox(a, b, c, lo, hi, frames()[0]);
    }
    int n = th ? 60000 : 3500;
    for (int i = 0; i < n; ++i) {
        int R = r.pick(std::vector<int>{ 2, 4, 9 }); Frame f = rnd_frame(r);
        P a = rnd_pt(r, -R, R), b = rnd_pt(r, -R, R), c = rnd_pt(r, -R, R), d = rnd_pt(r, -R, R), e = rnd_pt(r, -R, R);
        if (cross(c, d, e) != 0) { if (a != b) segtri(a, b, c, d, e, f); P hi = { a.x + r.in(1, R), a.y + r.in(1, R) }; tribox(c, d, e, a, hi, f); }
        if (a != b && c != d) { classify(a, b, c, d, f); segplane(a, b, c, d); }
        if (c != d) { std::vector<P> w{ a, b, e }; if (r.chance(50)) w.push_back(rnd_pt(r, -R, R)); if (r.chance(30)) { P u{ d.x - c.x, d.y - c.y }; for (P& z : w) { long k = r.in(-2, 2); z = { c.x + k * u.x, c.y + k * u.y }; } if (r.chance(70)) w[r.in(0, w.size() - 1)] = a; } classifyN(w, c, d, f); }
        A3 p{ r.in(-5, 5), r.in(-5, 5), r.in(-5, 5) }, q{ r.in(-5, 5), r.in(-5, 5), r.in(-5, 5) }, m{ r.in(-2, 2), r.in(-2, 2), r.in(-2, 2) };
        if (m[0] || m[1] || m[2]) segplane3(p, q, m, r.in(-6, 6));
        auto k3 = [&](int R) { return A3{ r.in(-R, R), r.in(-R, R), r.in(-R, R) }; };
        A3 o = k3(3), u = k3(R == 9 ? 3 : R), v = k3(R == 9 ? 3 : R), nn = cr(u, v); if (!nn[0] && !nn[1] && !nn[2]) continue;
        long i1 = r.in(-1, 3), j1 = r.in(-1, 3); A3 B, C, Z; for (int w = 0; w < 3; ++w) { B[w] = o[w] + 2 * u[w]; C[w] = o[w] + 2 * v[w]; Z[w] = o[w] + i1 * u[w] + j1 * v[w]; }
        tri3(Z, o, B, C, frames()[r.next() % 5]);
        u = k3(1), v = k3(1); nn = cr(u, v); if (!nn[0] && !nn[1] && !nn[2]) continue;
        for (int w = 0; w < 3; ++w) { B[w] = o[w] + u[w]; C[w] = o[w] + v[w]; }
        plane3(o, B, C, p, q, frames()[r.next() % 5]);
    }
    return end();
}
