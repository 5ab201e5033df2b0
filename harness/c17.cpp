// C17: polylines as curves
#include "gx.hpp"
#include <geometrix/utility/utilities.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
#include <geometrix/algorithm/point_sequence/polyline_split.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
#include <geometrix/algorithm/point_sequence/find_subsequence.hpp>
#include <geometrix/algorithm/point_sequence/point_polyline_orientation.hpp>
using namespace vh; using namespace gx;
using Op = std::array<long, 3>;
using PS = std::vector<P>;
template <class S> static std::vector<QP> pts(const S& s, const Frame& f) { std::vector<QP> r; for (auto& p : s) r.push_back(out(p, f)); return r; }
static Q len(double v, const Frame& f) { return rat(f.ilen(v)); }
static void edits(const PS& b, const std::vector<Op>& ops, const Frame& f) {
    record("edits", arr(b, ops), [&] {
        pline cur = mkline(b, f); std::vector<Raw> r; std::size_t k = 0;
        for (auto& op : ops) {
            double q = f.len(double(op[1]) / double(op[2])); std::vector<QP> shown;
            if (op[0] == 1) cur = clip_polyline_front(cur, q, cmp());
            if (op[0] == 2) cur = clip_polyline_back(cur, q, cmp());
            if (op[0] == 3) cur = clip_polyline_ends(cur, q, cmp());
            if (op[0] == 4 || op[0] == 5) { auto t = polyline_split(cur, q); cur = op[0] == 4 ? std::get<0>(t) : std::get<1>(t); }
            auto p = pts(cur, f); bool some = false; for (auto& x : p) some = some || x.x != p[0].x || x.y != p[0].y || x.d != p[0].d;
            if (!some) { r.push_back(Raw{ arr(p, Q{ 0, 1 }, QP{ 0, 0, 1 }) }); break; }
            r.push_back(Raw{ arr(p, len(polyline_length(cur), f), out(polyline_mid_point(cur), f)) });
            if (k++ % 2) { pline c2 = cur; cur = c2; }
        }
        return js(r);
    });
}
static long part(double v, double unit) { return fix(v, unit); }
static void measure(const PS& b, Rng& r, const Frame& f) {
    record("length", arr(b), [&] { pline l = mkline(b, f); pgon g = mkpoly(b, f); return arr(len(polyline_length(l), f), std::vector<Q>{ len(polygon_length(g), f) }[0]); });
}
static void position(const PS& b, long n, long d, const Frame& f) {
    Q q{ n / gcdl(n, d), d / gcdl(n, d) };
    record("position", arr(b, q), [&] { auto t = polyline_point_at_position(mkline(b, f), f.len(double(n) / d)); std::vector<QP> p; if (std::get<1>(t)) p.push_back(out(*std::get<1>(t), f)); return arr(std::get<0>(t), p); });
}
static void locate(const PS& b, P p, const Frame& f) {
    record("locate", arr(b, p), [&] { auto t = point_on_polyline_length_characteristics(mkline(b, f), mk(p, f), cmp()); return arr(len(std::get<0>(t).value(), f), len(std::get<1>(t).value(), f), (long)std::get<2>(t).value()); });
}
static void running(const PS& b, long cut, const Frame& f) {
    record("running", arr(b, cut), [&] { pline l = mkline(b, f); std::vector<double> v, w; if (cut < 0) v = polyline_segment_lengths(l); else { v = polyline_segment_lengths(l, f.len(cut)); w = polyline_segment_lengths(l.begin(), l.end(), f.len(cut)); if (v != w) throw 1; } std::vector<Q> q; for (double d : v) q.push_back(len(d, f)); return js(q); });
}
static void simplify(const PS& b, long e, const Frame& f) {
    record("simplify", arr(b, e), [&] {
        pline l = mkline(b, f); auto s = ramer_douglas_peucker_algorithm(l, f.len(e / 64.)); std::vector<long> r; std::size_t k = 0;
        // vertices are distinct except that the last may repeat the first
        for (auto& p : s) { while (k < l.size() && !(l[k][0] == p[0] && l[k][1] == p[1])) ++k; r.push_back(k < l.size() ? (long)k : -1); if (k < l.size()) ++k; }
        return js(r);
    });
}
static void ints(const char* op, const PS& b, std::function<std::vector<long>()> g) { record(op, arr(b), [&] { return js(g()); }); }
template <class S> static std::vector<P> ip(const S& s, const Frame& f) { std::vector<P> r; for (auto& p : s) { QP q = out(p, f); r.push_back(q.d == 1 ? P{ q.x, q.y } : P{ -9999, -9999 }); } return r; }
static void corners(const PS& b, const Frame& f, bool dups) {
    record("corners", arr(b), [&] { pline l = mkline(b, f); return js(ip(dups ? clean_polyline(l, cmp()) : remove_collinear_points_polyline(l, cmp()), f)); });
    record("distinct", arr(b), [&] { return js(ip(coalesce_adjacent_points_polyline(mkline(b, f), cmp()), f)); });
}
template <class S> static std::vector<long> setv(const S& s) { return std::vector<long>(s.begin(), s.end()); }
static void ring(const PS& b, const Frame& f, bool dups) {
    record("ringcorners", arr(b), [&] { pgon l = mkpoly(b, f); return js(ip(dups ? clean_polygon(l, cmp()) : remove_collinear_points_polygon(l, cmp()), f)); });
    if (!dups) record("straights", arr(b), [&] { return js(setv(identify_collinear_points_polygon(mkpoly(b, f), cmp()))); });
    record("ringdistinct", arr(b), [&] { return js(ip(coalesce_adjacent_points_polygon(mkpoly(b, f), cmp()), f)); });
    record("repeats", arr(b), [&] { return js(setv(identify_adjacent_points_polygon(mkpoly(b, f), cmp()))); });
}
// thinning: distinct vertices, squared distances up to k count as touching
static void thin(const PS& b, long k, const Frame& f) {
    record("thin", arr(b, k), [&] {
        absolute_tolerance_comparison_policy<double> c((k + 0.5) * f.s * f.s); pline l = mkline(b, f); pgon g = mkpoly(b, f);
        auto idx = [&](const auto& s) { std::vector<long> r; for (auto& p : s) { long j = -1; for (std::size_t i = 0; i < l.size(); ++i) if (l[i][0] == p[0] && l[i][1] == p[1]) j = i; r.push_back(j); } return r; };
        return arr(idx(coalesce_adjacent_points_polyline(l, c)), idx(coalesce_adjacent_points_polygon(g, c)), setv(identify_adjacent_points_polygon(g, c)));
    });
}
static void bend(const PS& b, long lim, const Frame& f) {
    record("curvature", arr(b, lim), [&] {
        pline l = mkline(b, f); std::vector<Q> k; std::vector<long> t; std::size_t n = l.size();
        auto d2 = [&](std::size_t i, std::size_t j) { double x = b[i].x - b[j].x, y = b[i].y - b[j].y; return x * x + y * y; };
        for (std::size_t i = 0; i < n; ++i) {
            double c = polyline_signed_curvature_at_index(l, i); c *= f.s;                       // curvature is 1/length
            if (i > 0 && i + 1 < n) c *= std::sqrt(d2(i, i - 1) * d2(i, i + 1) * d2(i - 1, i + 1));
            k.push_back(rat(c)); t.push_back(part(polyline_total_curvature_over_index(l, i), 1e5));
        }
        auto pieces = [&](const std::vector<pline>& v) { std::vector<Raw> o; for (auto& x : v) o.push_back(Raw{ js(pts(x, f)) }); return Raw{ js(o) }; };
        std::vector<long> infl; for (auto x : inflection_points(l)) if (x + 1 < n || true) infl.push_back(x);
        return arr(k, infl, pieces(split_polyline_by_inflection_points(l)), Raw{ arr(t, part(polyline_total_curvature(l), 1e5), part(polyline_total_absolute_curvature(l), 1e5)) }, pieces(split_by_total_curvature(l, lim / 1e5)));
    });
}
static void side(const PS& b, P p, const Frame& f) { record("side", arr(b, p), [&] { auto o = point_polyline_orientation(mk(p, f), mkline(b, f), cmp()); auto num = [](orientation_type o) { return o == oriented_left ? 1 : o == oriented_right ? -1 : 0; };
    // every segment that attains the distance may be named as the nearest
    auto q = mk(p, f); auto l = mkline(b, f); std::vector<double> d; for (std::size_t i = 0; i + 1 < l.size(); ++i) d.push_back(point_segment_distance_sqrd(q, l[i], l[i + 1]));
    double m = *std::min_element(d.begin(), d.end()); std::vector<std::vector<long>> e;
    for (std::size_t i = 0; i < d.size(); ++i) if (d[i] <= m * (1 + 1e-9)) e.push_back({ (long)i, (long)num(point_polyline_orientation(q, l, d[i], i, cmp())) });
    return arr(num(o), e); }); }
static void ringedge(const PS& b, P p, const Frame& f) {
    record("ringedge", arr(b, p), [&] { pgon g = mkpoly(b, f); pt q = mk(p, f); auto o = find_containing_polygon_border_segment(g, q, cmp()); return arr(o ? (long)*o : -1L, (long)find_closest_polygon_border_segment(g, q), (long)find_containing_or_closest_polygon_border_segment(g, q, cmp())); });
}
static void around(const PS& b, P p, long n, long d, const Frame& f) {
    Q q{ n / gcdl(n, d), d / gcdl(n, d) };
    record("around", arr(b, p, q), [&] { return js(pts(polygon_subsequence(mkpoly(b, f), mk(p, f), f.len(double(n) / d), cmp()), f)); });
}
// random polyline with integer edge lengths
static PS pyth(Rng& r, int n) {
    static const long dir[][2] = { { 1, 0 }, { 0, 1 }, { -1, 0 }, { 0, -1 }, { 3, 4 }, { -3, 4 }, { 4, -3 }, { -4, -3 }, { 1, 0 }, { 0, 1 } };
    PS v{ rnd_pt(r, -5, 5) };
    while ((int)v.size() < n) { int k = r.in(0, 9); long m = r.in(1, k < 4 || k > 7 ? 5 : 2); P q{ v.back().x + m * dir[k][0], v.back().y + m * dir[k][1] };
        if (v.size() > 1) { P a = v[v.size() - 2], c = v.back(); if (cross(a, c, q) == 0 && dot(c, a, q) > 0) continue; }     // no folding back
        v.push_back(q); }
    return v;
}
static P lattice_on(Rng& r, P a, P b) { long g = gcdl(b.x - a.x, b.y - a.y); long k = r.in(0, g); return P{ a.x + (b.x - a.x) / g * k, a.y + (b.y - a.y) / g * k }; }
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 2; far_ok() = true;
    const bool th = opts().thorough;
    static const std::vector<PS> base{ {}, { { 0, 0 }, { 2, 0 }, { 2, 1 } }, { { 0, 0 }, { 3, 4 }, { 3, 6 }, { 0, 6 } }, { { 0, 0 }, { 1, 0 }, { 2, 0 }, { 2, 2 }, { 0, 2 }, { 0, 1 } }, { { 1, 1 }, { 5, 4 } }, { { 0, 0 }, { 1, 0 }, { 1, 1 }, { 0, 1 }, { 0, 0 }, { -3, 4 } } };
    std::uint64_t k = 0;
    for (auto& s : script()) { std::vector<Op> ops; for (std::size_t i = 1; i + 2 < s.size(); i += 3) ops.push_back({ s[i], s[i + 1], s[i + 2] }); edits(base[s[0]], ops, frames()[k++ % 7]); }
    Rng r = stream("c17");
    for (int i = 0, c = th ? 8000 : 300; i < c; ++i) {
        Frame f = rnd_frame(r); PS b = pyth(r, r.in(2, 7)); long L = 0; std::vector<long> at{ 0 };
        for (std::size_t j = 1; j < b.size(); ++j) { L += std::lround(std::hypot(b[j].x - b[j - 1].x, b[j].y - b[j - 1].y)); at.push_back(L); }
        std::vector<Op> ops; for (int j = r.in(1, 4); j > 0; --j) { long d = r.pick(std::vector<int>{ 1, 1, 2, 3, 4 }); ops.push_back({ r.in(1, 5), r.chance(30) ? r.pick(at) * d : r.in(0, (int)(L * d * 2 / 3)), d }); }
        edits(b, ops, f);
        for (int j = 0; j < 2; ++j) { long d = r.in(1, 4); position(b, r.chance(40) ? r.pick(at) * d : r.in(0, (int)(L * d + 3)), d, f); }
        { int e = r.in(0, b.size() - 2); locate(b, lattice_on(r, b[e], b[e + 1]), f); }
        running(b, r.chance(20) ? -1 : r.chance(40) ? r.pick(at) : r.in(0, (int)L + 2), f);
    }
    Rng q = stream("c17b");
    for (int i = 0, c = th ? 12000 : 400; i < c; ++i) {
        Frame f = rnd_frame(q); int R = q.pick(std::vector<int>{ 2, 4, 9 });
        // distinct vertices, maybe closed
        PS b; std::set<P> seen; int n = q.in(2, 8); while ((int)b.size() < n) { P p = rnd_pt(q, -R, R); if (seen.insert(p).second) b.push_back(p); }
        if (n > 2 && q.chance(25)) b.push_back(b[0]);
        simplify(b, q.chance(20) ? 1 : q.in(1, R * 100) | 1, f);
        if (n > 2) { std::vector<P> o(b.begin(), b.begin() + n); bool fold = false; for (int j = 2; j < n; ++j) fold = fold || (cross(o[j - 2], o[j - 1], o[j]) == 0 && dot(o[j - 1], o[j - 2], o[j]) > 0); for (int j = 2; j < n; ++j) fold = fold || o[j] == o[j - 2]; if (!fold) bend(o, q.in(100, 400000), f); }
        if (n > 3) { PS w(b.begin(), b.begin() + n); long span = q.chance(50) ? 2 * R : 4 * R * R; if (q.chance(50)) { w.clear(); P p = rnd_pt(q, -R, R); while ((int)w.size() < n) { w.push_back(p); p.x += q.in(0, 2); p.y += q.in(0, 1); if (p == w.back()) ++p.x; } } thin(w, q.in(0, (int)span), f); }
        side(std::vector<P>(b.begin(), b.begin() + n), rnd_pt(q, -R - 2, R + 2), f);
        // corner removal: insert straight vertices and repeats
        bool ringy = q.chance(60); PS s = ringy ? rnd_simple(q, q.in(3, 7), -R - 1, R + 1, false) : pyth(q, q.in(2, 6)); PS t; bool dups = q.chance(50);
        for (std::size_t j = 0; j < s.size(); ++j) { t.push_back(s[j]); if (j + 1 == s.size() && !ringy) break; P a = s[j], e = s[(j + 1) % s.size()]; long g = gcdl(e.x - a.x, e.y - a.y); for (long m = 1; m < g && t.size() < 14; ++m) if (q.chance(40)) t.push_back(P{ a.x + (e.x - a.x) / g * m, a.y + (e.y - a.y) / g * m }); }
        if (ringy) { std::rotate(t.begin(), t.begin() + q.in(0, t.size() - 1), t.end()); }
        if (dups) { PS u; for (auto p : t) { u.push_back(p); while (q.chance(25)) u.push_back(p); } if (ringy) while (q.chance(30)) u.push_back(u[0]); t = u; }
        if (ringy) { if (t.size() > 3) ring(t, f, dups); } else if (t.size() > 2) corners(t, f, dups);
        PS g = rnd_simple(q, q.in(3, 7), -R - 1, R + 1); int e = q.in(0, g.size() - 1);
        ringedge(g, q.chance(50) ? rnd_pt(q, -R - 2, R + 2) : lattice_on(q, g[e], g[(e + 1) % g.size()]), f);
    }
    static const std::vector<PS> shapes{ { { 0, 0 }, { 4, 0 }, { 4, 3 } }, { { 0, 0 }, { 5, 0 }, { 5, 2 }, { 0, 2 } }, { { 0, 0 }, { 4, 0 }, { 4, 2 }, { 2, 2 }, { 2, 4 }, { 0, 4 } }, { { 0, 0 }, { 6, 8 }, { -6, 8 } }, { { 0, 0 }, { 2, 0 }, { 5, 4 }, { 5, 6 }, { 0, 6 } } };
    for (int i = 0, c = th ? 3000 : 120; i < c; ++i) {
        PS b = q.pick(shapes); if (q.chance(50)) std::reverse(b.begin(), b.end()); std::rotate(b.begin(), b.begin() + q.in(0, b.size() - 1), b.end()); for (auto& p : b) { p.x += 3; p.y -= 2; }
        record("length", arr(b), [&] { Frame f = rnd_frame(q); return arr(len(polyline_length(mkline(b, f)), f), len(polygon_length(mkpoly(b, f)), f)); });
        int e = q.in(0, b.size() - 1); P p = lattice_on(q, b[e], b[(e + 1) % b.size()]); long d = q.in(1, 3);
        around(b, p, q.in(1, (int)(d * (q.chance(15) ? 50 : 9))), d, rnd_frame(q));
    }
    for (int i = 0, c = th ? 400 : 30; i < c; ++i) {    // long sequences
        Frame f = rnd_frame(q); PS b = pyth(q, q.in(20, 70)); long L = 0; std::vector<long> at{ 0 };
        for (std::size_t j = 1; j < b.size(); ++j) { L += std::lround(std::hypot(b[j].x - b[j - 1].x, b[j].y - b[j - 1].y)); at.push_back(L); }
        std::vector<Op> ops; for (int j = q.in(1, 3); j > 0; --j) { long d = q.in(1, 3); ops.push_back({ q.in(1, 5), q.chance(30) ? q.pick(at) * d : q.in(0, (int)(L * d * 2 / 3)), d }); }
        edits(b, ops, f); position(b, q.chance(40) ? q.pick(at) : q.in(0, (int)L), 1, f); running(b, q.chance(20) ? -1 : q.in(0, (int)L + 2), f);
        PS w; std::set<P> seen; int n = q.in(15, 45); while ((int)w.size() < n) { P p = rnd_pt(q, -9, 9); if (seen.insert(p).second) w.push_back(p); }
        simplify(w, q.in(1, 1200) | 1, f); side(w, rnd_pt(q, -11, 11), f);
        PS g = rnd_star(q, q.in(12, 40), 10); ringedge(g, rnd_pt(q, -12, 12), f);
    }
    return end();
}
