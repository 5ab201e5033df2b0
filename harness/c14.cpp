// C14: solid-leaf BSP tree
#include "gx.hpp"
#include <geometrix/utility/utilities.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/arithmetic/vector.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/node_bsp_tree_2d.hpp>
#include <geometrix/algorithm/solid_leaf_bsp_tree.hpp>
#include <geometrix/algorithm/hyperplane_partition_policies.hpp>
using namespace vh; using namespace gx;
using V = std::vector<P>; using T3 = std::array<long, 3>;
using tree = solid_leaf_bsp_tree<seg>;
static std::vector<seg> walls(const std::vector<V>& ps, const Frame& f) { std::vector<seg> r; for (auto& p : ps) { auto pg = mkpoly(p, f); auto s = polygon_as_segment_range<seg>(pg); r.insert(r.end(), s.begin(), s.end()); } return r; }
// walls that carry a name, and trees whose solid side is in front of their walls
struct Wall { seg s; int id; };
struct wall_of { const seg& operator()(const Wall& w) const { return w.s; } Wall make_split(const seg& part, const Wall& w) const { return { part, w.id }; } };
struct front_solid { static const node_orientation solid_side = node_orientation::front; };
template <class F> static void each(const std::vector<seg>& w, F&& f) {
    { std::vector<Wall> n; for (auto& s : w) n.push_back({ s, (int)n.size() }); tree t(n, partition_policies::scored_selector_policy<wall_of, cmp_t>(wall_of(), cmp()), cmp(), wall_of()); f(t); }
    { std::vector<seg> b; for (auto& s : w) b.push_back(s.reverse()); solid_leaf_bsp_tree<seg, front_solid> t(b, partition_policies::autopartition_policy(), cmp()); f(t); }
    { tree t(w, partition_policies::autopartition_policy(), cmp()); f(t); }
    { tree t(w, partition_policies::scored_selector_policy<identity_simplex_extractor, cmp_t>(identity_simplex_extractor(), cmp()), cmp(), identity_simplex_extractor()); tree u(std::move(t)); tree x; x = std::move(u); f(x);
      tree y(walls({ V{ { 0, 0 }, { 2, 0 }, { 2, 1 }, { 1, 1 }, { 1, 3 } } }, frames()[0]), partition_policies::autopartition_policy(), cmp()); y = std::move(x); f(y); } // over a tree that was in use
}
using A5 = std::pair<std::pair<int, Q>, std::pair<long, std::pair<Q, long>>>;
static void at(const std::vector<V>& ps, int e, const std::vector<P>& qs, const Frame& f) {
    record("at", arr(ps, e, qs), [&] {
        std::vector<std::vector<Raw>> r;
        each(walls(ps, f), [&](const auto& t) {
            r.push_back({});
            for (P q : qs) {
                auto p = mk(q, f); std::size_t i = 999, j = 999; auto c = t.point_in_solid_space(p, cmp()); double d2 = t.get_min_distance_sqrd_to_solid(p, i, cmp()), d = t.get_min_distance_to_solid(p, j, cmp());
                int code = c == point_in_solid_classification::in_solid ? -1 : c == point_in_solid_classification::in_empty_space ? 1 : 0;
                r.back().push_back(Raw{ arr(code, rat(f.isq(d2)), i, rat(f.isq(d * d)), j) });
            }
        });
        return js(r);
    });
}
using Ray = std::pair<P, T3>;
static void ray(const std::vector<V>& ps, int e, const std::vector<Ray>& rs, const Frame& f) {
    record("ray", arr(ps, e, rs), [&] {
        std::vector<std::vector<Raw>> r;
        each(walls(ps, f), [&](const auto& t) {
            r.push_back({});
            for (auto& q : rs) {
                vec v((double)q.second[0] / q.second[2], (double)q.second[1] / q.second[2]); auto p = mk(q.first, f);
                auto one = [&](auto h) { bool hit = h.is_intersecting(); return arr(hit, hit ? rat(f.ilen(h.intersection_distance())) : Q{ 0, 0 }, hit ? (long)(int)h.get_data() : -1L); };
                r.back().push_back(Raw{ "[" + one(t.ray_intersection(p, v, cmp())) + "," + one(t.ray_intersection_only_border(p, v, cmp())) + "]" });
            }
        });
        return js(r);
    });
}
static const std::vector<T3>& dirs() { static std::vector<T3> d; if (d.empty()) for (T3 b : std::vector<T3>{ { 1, 0, 1 }, { 3, 4, 5 }, { 4, 3, 5 }, { 5, 12, 13 }, { 12, 5, 13 } }) for (int sx : { 1, -1 }) for (int sy : { 1, -1 }) { d.push_back({ sx * b[0], sy * b[1], b[2] }); if (b[1] == 0) d.push_back({ 0, sy * b[0], b[2] }); } return d; }
static void orient(V& v, bool ccw) { if ((area2(v) > 0) != ccw) std::reverse(v.begin(), v.end()); }
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 3;
    const bool th = opts().thorough;
    std::uint64_t k = 0;
    std::vector<P> grid; for (long x = -1; x < 4; ++x) for (long y = -1; y < 4; ++y) grid.push_back({ x, y });
    for (long n = 3; n <= 5; ++n) {
        std::vector<int> ix(n, 0);
        for (;;) {
            V v; for (int i : ix) v.push_back({ i % 3, i / 3 });
            if (simple(v) && mine(k++)) if (th || k % (n == 3 ? 2 : n == 4 ? 13 : 101) == 0) {
                int e = area2(v) > 0; Frame f = frames()[k % 4];
                at({ v }, e, grid, f); std::vector<Ray> rs; for (std::size_t i = 0; i < grid.size(); ++i) rs.push_back({ grid[i], dirs()[(i * 7 + k) % dirs().size()] }); ray({ v }, e, rs, f);
            }
            int j = 0; while (j < n && ++ix[j] == 9) ix[j++] = 0; if (j == n) break;
        }
    }
    Rng r = stream("c14");
    for (int i = 0, c = th ? 3000 : 220; i < c; ++i) {
        int R = r.pick(std::vector<int>{ 3, 6 }); std::vector<V> ps; int e = 0;
        if (r.chance(40)) { ps.push_back(rnd_simple(r, r.in(3, 9), -R, R)); e = r.in(0, 1); orient(ps[0], e); }
        else {
            if (r.chance(60)) { e = 1; V o = r.chance(50) ? V{ { -R - 1, -R - 1 }, { 3 * R + 2, -R - 1 }, { 3 * R + 2, R + 1 }, { -R - 1, R + 1 } } : V{ { -R - 2, -R - 1 }, { R, -R - 3 }, { 3 * R + 4, -R - 1 }, { 3 * R + 2, R + 1 }, { R, R + 2 }, { -R - 1, R + 1 } }; ps.push_back(o); }
            int m = r.in(1, 2); for (int j = 0; j < m; ++j) { V v = rnd_simple(r, r.in(3, 6), -R, R); for (auto& p : v) p.x += j * (2 * R + 1); orient(v, false); ps.push_back(v); }
        }
        int W = ps.size() > 1 ? 3 * R + 3 : R + 1; Frame f = rnd_frame(r);
        std::vector<P> qs; std::vector<Ray> rs;
        for (int j = 0; j < 12; ++j) { P p{ r.in(-R - 2, W), r.in(-R - 2, R + 2) }; auto& v = r.pick(ps); if (r.chance(20)) p = r.pick(v); if (r.chance(20)) { std::size_t a = r.next() % v.size(); P x = v[a], y = v[(a + 1) % v.size()]; p = { 2 * y.x - x.x, 2 * y.y - x.y }; } qs.push_back(p); rs.push_back({ p, r.pick(dirs()) }); }
        at(ps, e, qs, f); ray(ps, e, rs, f);
    }
    for (int i = 0, c = th ? 200 : 14; i < c; ++i) {    // many walls
        V v = r.chance(30) ? rnd_comb(r, r.in(5, 16), 6) : rnd_star(r, r.pick(std::vector<int>{ 14, 24, 40 }), r.in(8, 14)); int e = r.in(0, 1); orient(v, e); Frame f = rnd_frame(r);
        std::vector<P> qs; std::vector<Ray> rs; for (int j = 0; j < 10; ++j) { P p = rnd_pt(r, -16, 16); if (r.chance(30)) p = r.pick(v); if (r.chance(20)) p.y = r.pick(v).y; qs.push_back(p); rs.push_back({ p, r.pick(dirs()) }); }
        at({ v }, e, qs, f); ray({ v }, e, rs, f);
    }
    return end();
}
