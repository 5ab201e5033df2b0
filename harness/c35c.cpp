// C35: one query asked in plain numbers, in metres and in another unit: the same amounts, each with its dimension
#include "c35.hpp"
#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/point_sequence/polyline_offset.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp>
#include <geometrix/algorithm/hash_grid_2d.hpp>
#include <geometrix/algorithm/grid_2d.hpp>
#include <geometrix/algorithm/fast_voxel_grid_traversal.hpp>
#include <geometrix/algorithm/kd_tree.hpp>
#include <geometrix/algorithm/median_partitioning_strategy.hpp>
#include <geometrix/algorithm/mesh_2d.hpp>
#include <geometrix/algorithm/point_in_circumcircle.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include <geometrix/arithmetic/vector.hpp>
struct Big : Cgs { static double k() { return 64; } };               // another unit, 64 of it a metre: scaling is exact
using C0 = sphere<2, Kit<Plain>::Q>; using C1 = sphere<2, Kit<Si>::Q>; using C2 = sphere<2, Kit<Big>::Q>;
using Q0 = Kit<Plain>::Q; using Q1 = Kit<Si>::Q; using Q2 = Kit<Big>::Q;
GEOMETRIX_DEFINE_SPHERE_TRAITS(2, Q1, C1); GEOMETRIX_DEFINE_SPHERE_ACCESS_TRAITS(C1);
GEOMETRIX_DEFINE_SPHERE_TRAITS(2, Q2, C2); GEOMETRIX_DEFINE_SPHERE_ACCESS_TRAITS(C2);
struct Scene { P p[6]; std::vector<P> v, w; int k; long r, s; };
static const long DIRS[8][3] = { { 1, 0, 1 }, { 0, -1, 1 }, { 3, 4, 5 }, { -3, 4, 5 }, { 4, -3, 5 }, { -5, -12, 13 }, { 12, 5, 13 }, { -1, 0, 1 } };
template <class W> struct Ask : Kit<W> {
    using K = Kit<W>; using Q = typename K::Q; using L = typename K::L; using T = typename K::T; using D = typename K::D; using E = typename K::E; using V = typename K::V; using U = typename K::U; using A = typename K::A;
    using C = sphere<2, Q>; using Obb = oriented_bounding_box<Q, E>; using Box = axis_aligned_bounding_box<Q>; using Seg = segment<Q>;
    std::vector<Raw> out;
    template <class N> void say(const bu::quantity<N, double>& q) { auto e = exps(N()); put(e[0], e[1], K::val(q)); }
    void say(double q) { put(0, 0, q); }
    void say(const Q& p) { say(p[0]); say(p[1]); }
    void flag(long n) { put(0, 0, double(n)); }
    void put(int a, int b, double v) { out.push_back(Raw{ arr(a, b, std::fabs(v) < 1e6 ? std::lround(v * 1000) : -1999999999L) }); }
    static Q at(P p) { return K::at(p.x, p.y); }
    std::vector<Raw> ask(const std::string& q, const Scene& s) {
        const auto cmp = pol<W>(); const Q a = at(s.p[0]), b = at(s.p[1]), c = at(s.p[2]), d = at(s.p[3]), e = at(s.p[4]), f = at(s.p[5]); const long* dv = DIRS[s.k];
        const E u = K::un(double(dv[0]) / dv[2], double(dv[1]) / dv[2]), n = K::un(-double(dv[1]) / dv[2], double(dv[0]) / dv[2]);
        const U z(K::spd(s.p[4].x), K::spd(s.p[4].y)), z2(K::spd(s.p[5].x), K::spd(s.p[5].y)); const L ra = K::len(s.r), rb = K::len(s.s); Box bx(at(P{ std::min(s.p[1].x, s.p[2].x), std::min(s.p[1].y, s.p[2].y) }), at(P{ std::max(s.p[1].x, s.p[2].x), std::max(s.p[1].y, s.p[2].y) }));
        polygon<Q> g, h; polyline<Q> l; for (auto& x : s.v) { g.push_back(at(x)); l.push_back(at(x)); } for (auto& x : s.w) h.push_back(at(x));
        T t = K::tim(0); Q x = K::at(0, 0), y = x; D i = K::num(0), j = i;
        auto met = [&](const auto& m) { flag(m.is_intersecting()); if (m.is_intersecting() && !m.is_penetrating()) { say(t); say(x); } };
        auto line_ = [&](const polyline<Q>& o) { flag(o.size()); for (auto& p : o) say(p); };
        if (q == "spheres") { bool k = moving_sphere_sphere_intersection(C(a, ra), C(b, rb), z, z2, t, x, cmp); flag(k); if (k) { say(t); say(x); } }
        else if (q == "sphere segment") met(moving_sphere_segment_intersection(C(a, ra), z, Seg(b, c), t, x, cmp));
        else if (q == "sphere line") { auto m = moving_sphere_plane_intersection(C(a, ra), z, line<Q>(b, c), t, x, cmp); flag(m.is_intersecting()); if (m.is_intersecting() && !m.is_penetrating()) { say(t); say(x); } }
        else if (q == "sphere box") { auto m = moving_sphere_aabb_intersection(C(a, ra), z, bx, t, x, cmp); flag(bool(m)); if (bool(m)) { say(t); say(x); } }
        else if (q == "sphere obb") met(moving_sphere_obb_intersection(C(a, ra), z, Obb(b, u, n, K::len(s.p[5].x * s.p[5].x + 1), rb), t, x, cmp));
        else if (q == "circles") { auto m = circle_circle_intersection(C(a, ra), C(b, rb), cmp); flag((long)m.State); if (m.IntersectionPoint0) say(*m.IntersectionPoint0); if (m.IntersectionPoint1) say(*m.IntersectionPoint1); }
        else if (q == "segment circle") { D ts[2] = { i, i }; Q xs[2] = { x, x }; auto m = segment_sphere_intersection(a, b, C(c, ra), ts, xs, cmp); flag(bool(m)); int o = bool(m) ? 1 : 0; if (o) { say(xs[0]); } }
        else if (q == "ray box") { L o = K::len(0); auto m = ray_aabb_intersection(a, u, bx, o, x, cmp); flag(bool(m)); if (bool(m)) { say(o); say(x); } }
        else if (q == "obbs") flag(obb_obb_intersection(Obb(a, u, n, ra, rb), Obb(b, n, u, K::len(s.r + 1), rb), cmp));
        else if (q == "lines") { auto m = line_line_intersect(a, b, c, d, x, cmp); flag((long)m); if ((long)m == e_crossing) say(x); }
        else if (q == "closest") { say(segment_segment_closest_point(a, b, c, d, i, j, x, y, cmp)); }
        else if (q == "middle") say(polyline_mid_point(l));
        else if (q == "clip") { line_(clip_polyline_front(l, ra, cmp)); }
        else if (q == "clip back") line_(clip_polyline_back(l, rb, cmp));
        else if (q == "straight") line_(remove_collinear_points_polyline(l, cmp));
        else if (q == "straight ring") { auto o = remove_collinear_points_polygon(g, cmp); flag(o.size()); for (auto& p : o) say(p); }
        else if (q == "simplify") line_(ramer_douglas_peucker_algorithm(l, ra));
        else if (q == "offset") line_(polyline_offset(l, s.k % 2 ? oriented_left : oriented_right, K::len(.25), cmp));
        else if (q == "simple") flag(is_polygon_simple(g, cmp));
        else if (q == "rings") { flag(polygon_polygon_containment(g, h, cmp)); flag(polygon_polygon_containment(h, g, cmp)); }
        else if (q == "turn") { say(rotate_point(a, u, n, b)); auto m = rotate_points(g, u, n, c); flag(m.size()); for (auto& p : m) say(p); }
        else if (q == "tree") { std::vector<Q> ps; for (auto& p : s.v) ps.push_back(at(p)); kd_tree<Q> tr(ps, cmp, median_partitioning_strategy()); std::vector<Q> o; tr.search(bx, [&](const Q& p) { o.push_back(p); }, cmp); flag(o.size()); for (auto& p : o) say(p); }
        else if (q == "cells") { grid_traits<L> gt(K::len(-16), K::len(16), K::len(-16), K::len(16), K::len(1)); std::vector<std::array<long, 2>> o; fast_voxel_grid_traversal(gt, Seg(a, b), [&](std::uint32_t m, std::uint32_t k) { o.push_back({ { long(m), long(k) } }); }, cmp); flag(o.size()); for (auto& p : o) { flag(p[0]); flag(p[1]); } flag(gt.is_contained(c)); flag(gt.get_x_index(get<0>(c))); flag(gt.get_y_index(get<1>(c))); }
        else if (q == "cell middle") { grid_traits<L> gt(K::len(-16), K::len(16), K::len(-16), K::len(16), K::len(1)); say(gt.get_cell_centroid(s.r, s.s)); }
        else if (q == "mesh") { mesh_2d<L> m(std::vector<Q>{ a, b, c }, std::vector<std::size_t>{ 0, 1, 2 }, cmp); say(m.get_random_position(.125 * s.r / 4, .25, .0625 * s.s)); }
        else if (q == "circle of three") flag((long)point_in_circumcircle(a, b, c, d, cmp));
        else if (q == "triangle") flag(point_in_triangle(a, b, c, d, cmp));
        else if (q == "space") { using Q3 = typename K::Q3; using V3 = typename K::V3; Q3 m(K::len(s.p[0].x), K::len(s.p[0].y), K::len(s.p[1].x)), o(K::len(s.p[1].y), K::len(s.p[2].x), K::len(s.p[2].y)), w(K::len(s.p[3].x), K::len(s.p[3].y), K::len(s.p[4].x)); V3 v1 = o - m, v2 = w - m; vector<A, 3> cr = v1 ^ v2; say(get<0>(cr)); say(get<1>(cr)); say(get<2>(cr)); say(dot_product(v1, v2)); say(point_point_distance_sqrd(m, o)); }
        else if (q == "corners") { Obb o(a, u, n, ra, rb); for (int m = 0; m < 4; ++m) say(Q(o[m])); }
        else std::abort();
        return out;
    }
};
static void same(const std::string& kind, const std::string& q, const Scene& s) {
    std::vector<long> in; for (auto& p : s.p) { in.push_back(p.x); in.push_back(p.y); } in.push_back(s.k); in.push_back(s.r); in.push_back(s.s);
    auto ask = [&](auto a) { try { return a.ask(q, s); } catch (const std::exception&) { return std::vector<Raw>{ Raw{ "[0,0,-7]" } }; } };
    record("same", arr(kind, q, in, s.v, s.w), [&] { return arr(ask(Ask<Plain>()), ask(Ask<Si>()), ask(Ask<Big>())); });
}
int main(int argc, char** argv) {
    begin(argc, argv);
    static const char* QS[][2] = { { "meet", "spheres" }, { "meet", "sphere segment" }, { "meet", "sphere line" }, { "meet", "sphere box" }, { "meet", "sphere obb" }, { "found", "circles" }, { "found", "segment circle" }, { "found", "ray box" }, { "tell", "obbs" }, { "found", "lines" },
        { "area", "closest" }, { "place", "middle" }, { "found", "clip" }, { "found", "clip back" }, { "found", "straight" }, { "found", "straight ring" }, { "found", "simplify" }, { "found", "offset" }, { "tell", "simple" }, { "tell", "rings" }, { "turn", "turn" }, { "found", "tree" }, { "tell", "cells" }, { "place", "cell middle" },
        { "place", "mesh" }, { "tell", "circle of three" }, { "tell", "triangle" }, { "area", "space" }, { "place", "corners" } };
    Rng r = stream("c35c");
    for (int n = 0, c = opts().thorough ? 8000 : 400; n < c; ++n) {
        const long m = r.chance(50) ? 3 : 9; Scene s; for (auto& p : s.p) p = P{ r.in(-m, m), r.in(-m, m) }; s.k = r.in(0, 7); s.r = r.in(1, 4); s.s = r.in(1, 4);
        for (auto& e : rnd_simple(r, r.in(3, 7), (int)-m, (int)m)) s.v.push_back(P{ (long)e.x, (long)e.y }); for (auto& e : rnd_simple(r, 4, (int)-m, (int)m)) s.w.push_back(P{ (long)e.x, (long)e.y });
        for (auto& q : QS) {
            if (std::string(q[1]) == "sphere segment" || std::string(q[1]) == "sphere line" || std::string(q[1]) == "sphere obb" || std::string(q[1]) == "spheres") if ((s.p[4].x | s.p[4].y) == 0) continue;
            const P &a = s.p[0], &b = s.p[1], &c = s.p[2]; if (std::string(q[1]) == "mesh" && (b.x - a.x) * (c.y - a.y) == (b.y - a.y) * (c.x - a.x)) continue;
            if ((b.x == c.x || b.y == c.y) && std::string(q[1]) == "sphere box") continue;
            if (b.x == c.x && b.y == c.y && (std::string(q[1]) == "sphere segment" || std::string(q[1]) == "sphere line")) continue;
            same(q[0], q[1], s);
        }
    }
    return end();
}
