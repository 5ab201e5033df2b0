// C18: relations between point sequences
#include "gx.hpp"
#include <geometrix/utility/utilities.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polygon_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_projects_outside_polygon.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/point_sequence/self_intersection.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp>
#include <geometrix/algorithm/point_sequence/is_congruent.hpp>
using namespace vh; using namespace gx;
using V = std::vector<P>;
static V rot(V v, int k) { std::rotate(v.begin(), v.begin() + k % v.size(), v.end()); return v; }
static V rev(V v) { std::reverse(v.begin(), v.end()); return v; }
static void simples(const V& v, int k, const Frame& f) {
    record("simple", arr(v), [&] {
        pgon a = mkpoly(v, f), b = mkpoly(rot(v, k), f), c = mkpoly(rev(v), f);
        return js(std::vector<bool>{ is_polygon_simple(a, cmp()), is_polygon_simple_memoized(a, cmp()), is_polygon_simple(b, cmp()), is_polygon_simple_memoized(b, cmp()), is_polygon_simple(c, cmp()), is_polygon_simple_memoized(c, cmp()) });
    });
}
static void rings(const std::vector<V>& rs, const Frame& f) {
    record("rings", arr(rs), [&] {
        std::vector<pgon> h; for (std::size_t i = 1; i < rs.size(); ++i) h.push_back(mkpoly(rs[i], f));
        polygon_with_holes<pt> p(mkpoly(rs[0], f), h);
        return js(is_polygon_with_holes_simple(p, cmp()));
    });
}
static std::string ev(int t, std::size_t i, std::size_t j, const pt& a, const pt& b, const Frame& f) { return arr(t, i, j, out(a, f), out(t == e_overlapping ? b : a, f)); }
static void self(const V& v, const Frame& f) {
    record("self", arr(v), [&] {
        std::vector<Raw> o; pline p = mkline(v, f);
        bool r = polyline_self_intersection(p, [&](std::size_t i, std::size_t j, intersection_type t, const pt& a, const pt& b) { o.push_back(Raw{ ev(t, i, j, a, b, f) }); }, cmp());
        return arr(r, o);
    });
}
static void ringin(const V& u, const V& v, int k, const Frame& f) {
    record("ring in", arr(u, v), [&] {
        return js(std::vector<bool>{ polygon_polygon_containment(mkpoly(u, f), mkpoly(v, f), cmp()), polygon_polygon_containment(mkpoly(rot(u, k), f), mkpoly(rev(v), f), cmp()), polygon_polygon_containment(mkpoly(rev(u), f), mkpoly(rot(v, k), f), cmp()) });
    });
}
static void linein(const V& u, const V& v, int k, const Frame& f) {
    record("line in", arr(u, v), [&] {
        return js(std::vector<bool>{ polygon_polyline_containment(mkline(u, f), mkpoly(v, f), cmp()), polygon_polyline_containment(mkline(rev(u), f), mkpoly(rot(v, k), f), cmp()), polygon_polyline_containment(mkline(u, f), mkpoly(rev(v), f), cmp()) });
    });
}
static void pieces(P a, P b, const V& v, const Frame& f) {
    record("pieces", arr(V{ a, b }, v), [&] {
        seg s(mk(a, f), mk(b, f)); pgon p = mkpoly(v, f); std::vector<Raw> o;
        bool r = segment_polygon_intersection(s, p, [&](const seg& q) { o.push_back(Raw{ arr(out(q.get_start(), f), out(q.get_end(), f)) }); }, cmp());
        return arr(r, o, segment_projects_outside_polygon(s, p, cmp()));
    });
}
static void border(P a, P b, const V& v, bool closed, int stop, int how, const Frame& f) {
    record("border", arr(V{ a, b }, v, (int)closed, stop), [&] {
        std::vector<Raw> o; pt A = mk(a, f), B = mk(b, f); seg s(A, B); bool r;
        auto vis = [&](intersection_type t, std::size_t i, std::size_t j, const pt& x, const pt& y) { o.push_back(Raw{ ev(t, i, j, x, y, f) }); return stop && (int)o.size() >= stop; };
        if (closed) { pgon p = mkpoly(v, f); r = how ? segment_polygon_border_intersect(s, p, vis, cmp()) : segment_polygon_border_intersect(A, B, p, vis, cmp()); }
        else { pline p = mkline(v, f); r = how ? segment_polyline_intersect(s, p, vis, cmp()) : segment_polyline_intersect(A, B, p, vis, cmp()); }
        return arr(r, o);
    });
}
static void lines(const V& u, const V& v, int stop, const Frame& f) {
    record("lines", arr(u, v, stop), [&] {
        std::vector<Raw> o; pline a = mkline(u, f), b = mkline(v, f);
        bool r = polyline_polyline_intersect(a, b, [&](intersection_type t, std::size_t i, std::size_t j, std::size_t k, std::size_t l, const pt& x, const pt& y) {
            o.push_back(Raw{ arr((int)t, std::vector<std::size_t>{ i, j, k, l }, out(x, f), out(t == e_overlapping ? y : x, f)) }); return stop && (int)o.size() >= stop; }, cmp());
        return arr(r, o);
    });
}
// the second sequence is looked at through a further exact-length rotation of the plane
static void congruent(const V& u, const V& v, int how, const Frame& f) {
    record("congruent", arr(u, v), [&] {
        auto turn = [&](P p) { double c = how == 0 ? 1 : how == 1 ? 0.6 : -5.0 / 13, s = how == 0 ? 0 : how == 1 ? 0.8 : 12.0 / 13; return pt(f.len(c * p.x - s * p.y) + 3, f.len(s * p.x + c * p.y) - 5); };
        pline a = mkline(u, f), b; pgon c = mkpoly(u, f), d;
        for (P p : v) { b.push_back(turn(p)); d.push_back(turn(p)); }
        std::vector<bool> r{ are_polylines_congruent(a, b, cmp()), are_polylines_congruent(b, a, cmp()) };
        if (u.size() > 2 && v.size() > 2) { r.push_back(are_polygons_congruent(c, d, cmp())); r.push_back(are_polygons_congruent(d, c, cmp())); }
        return js(r);
    });
}
static V rndv(Rng& g, int n, int lo, int hi, bool rep) { V v; while ((int)v.size() < n) { P p = rnd_pt(g, lo, hi); if (!v.empty() && v.back() == p) continue; if (!rep && std::find(v.begin(), v.end(), p) != v.end()) { if (g.chance(5)) break; continue; } v.push_back(p); } return v; }
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 1; far_ok() = true; int k = 0;
    for (auto& s : script()) { V v; for (std::size_t i = 0; i + 1 < s.size(); i += 2) v.push_back({ s[i], s[i + 1] }); ++k; if (v.size() > 2) { simples(v, 1 + k % 2, frames()[k % 7]); } self(v, frames()[(k + 3) % 7]); }
    int N = opts().thorough ? 3000 : 260;
    auto run = [&](const char* name, int n, std::function<void(Rng&, const Frame&)> f) { Rng g = stream(name); for (int i = 0; i < n; ++i) { Frame fr = rnd_frame(g); f(g, fr); } };
    run("simple", N, [](Rng& g, const Frame& f) { int n = g.in(3, 7); V v = g.chance(50) ? rnd_simple(g, n, 0, 4) : rndv(g, n, 0, 3, g.chance(30)); if (v.size() > 2) { if (g.chance(20) && v.size() > 3) v[g.in(0, v.size() - 1)] = v[g.in(0, v.size() - 1)]; for (std::size_t i = 0; i < v.size(); ++i) if (v[i] == v[(i + 1) % v.size()]) return; simples(v, g.in(1, 4), f); } });
    run("rings", N, [](Rng& g, const Frame& f) {
        std::vector<V> r; r.push_back(g.chance(80) ? rnd_simple(g, g.in(4, 7), 0, 12) : rndv(g, 4, 0, 12, false));
        int h = g.in(0, 3); for (int i = 0; i < h; ++i) { int x = g.in(1, 9), y = g.in(1, 9); r.push_back(g.chance(90) ? rnd_simple(g, 3 + g.in(0, 1), 0, 2) : rndv(g, 4, 0, 2, false)); for (P& p : r.back()) { p.x += x; p.y += y; } }
        for (auto& v : r) if (v.size() < 3) return; rings(r, f); });
    run("self", N, [](Rng& g, const Frame& f) { V v = rndv(g, g.in(1, 7), 0, g.chance(50) ? 3 : 6, true); self(v, f); });
    run("ring in", N, [](Rng& g, const Frame& f) {
        V v = rnd_simple(g, g.in(3, 7), 0, 5), u;
        if (g.chance(40)) { u = v; for (P& p : u) if (g.chance(25)) p = rnd_pt(g, 0, 5); if (!simple(u)) u = v; if (g.chance(40)) for (P& p : u) p.x += g.in(0, 1); if (g.chance(30)) { std::size_t i = g.in(0, u.size() - 1); V w = u; w.erase(w.begin() + i); if (simple(w)) u = w; } }
        else { int a = g.in(0, 3); u = rnd_simple(g, g.in(3, 5), a, a + g.in(2, 5 - a > 2 ? 5 - a : 2)); }
        ringin(u, v, g.in(1, 3), f); });
    run("line in", N, [](Rng& g, const Frame& f) {
        V v = rnd_simple(g, g.in(3, 7), 0, 5), u = rndv(g, g.in(2, 4), 0, 5, true);
        if (g.chance(60)) { V c; for (int x = 0; x <= 5; ++x) for (int y = 0; y <= 5; ++y) { bool in = false; P p{ x, y }; for (std::size_t i = 0, j = v.size() - 1; i < v.size(); j = i++) { if (on_seg(v[j], v[i], p)) { in = true; break; } if ((v[i].y > y) != (v[j].y > y)) { long cr = cross(v[j], v[i], p); if ((cr > 0) == (v[i].y > v[j].y)) in = !in; } } if (in) c.push_back(p); }
            for (P& p : u) p = g.pick(c); for (std::size_t i = 1; i < u.size(); ++i) if (u[i] == u[i - 1]) return; }
        linein(u, v, g.in(1, 3), f); });
    auto segon = [](Rng& g, const V& v, P& a, P& b) { do { a = g.chance(40) ? g.pick(v) : rnd_pt(g, 0, 5); b = g.chance(40) ? g.pick(v) : rnd_pt(g, 0, 5); } while (a == b); };
    run("pieces", N * 2, [&](Rng& g, const Frame& f) { V v = rnd_simple(g, g.in(3, 8), 0, 5); P a, b; segon(g, v, a, b); pieces(a, b, v, f); });
    run("border", N, [&](Rng& g, const Frame& f) { V v = rnd_simple(g, g.in(3, 7), 0, 5); P a, b; segon(g, v, a, b); border(a, b, v, g.chance(50), g.in(0, 3), g.in(0, 1), f); });
    run("lines", N, [&](Rng& g, const Frame& f) { lines(rndv(g, g.in(2, 5), 0, 5, true), rndv(g, g.in(2, 5), 0, 5, true), g.chance(50) ? 0 : g.in(1, 5), f); });
    run("congruent", N, [&](Rng& g, const Frame& f) {
        V u = rndv(g, g.in(1, 6), 0, 6, true), v;
        int q = g.in(0, 3), m = g.chance(20); P t = rnd_pt(g, -3, 3);
        for (P p : u) { if (m) p.x = -p.x; for (int i = 0; i < q; ++i) p = P{ -p.y, p.x }; v.push_back({ p.x + t.x, p.y + t.y }); }
        if (g.chance(30)) v[g.in(0, v.size() - 1)].x += g.in(-1, 1);
        if (g.chance(10)) v = rot(v, 1); if (g.chance(5)) v.push_back({ 9, 9 }); if (g.chance(10)) v[0].y += g.in(-1, 1);
        congruent(u, v, g.in(0, 2), f); });
    run("many", N / 14, [&](Rng& g, const Frame& f) {    // many corners
        V v = g.chance(30) ? rnd_comb(g, g.in(5, 8), 6) : rnd_star(g, g.in(12, 32), 8), u = rnd_star(g, g.in(3, 20), g.in(3, 8));
        simples(v, g.in(1, 9), f); { V w = v; std::swap(w[g.next() % w.size()], w[g.next() % w.size()]); simples(w, 2, f); }
        ringin(u, v, g.in(1, 9), f); P a = g.chance(30) ? g.pick(v) : rnd_pt(g, -8, 8), b = g.chance(30) ? g.pick(v) : rnd_pt(g, -8, 8); if (a != b) { pieces(a, b, v, f); border(a, b, v, g.chance(50), g.in(0, 3), g.in(0, 1), f); }
        V p = rndv(g, g.in(6, 16), 0, 8, true), q = rndv(g, g.in(6, 16), 0, 8, true); lines(p, q, g.chance(50) ? 0 : g.in(1, 9), f); self(p, f); linein(p, v, g.in(1, 3), f);
        V c = rndv(g, g.in(20, 60), -9, 9, true), d = c; for (P& z : d) z = { -z.y + 4, z.x - 1 }; if (g.chance(50)) d[g.next() % d.size()].x += 1; congruent(c, d, g.in(0, 2), f); });
    return end();
}
