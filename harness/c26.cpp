// C26: measures of point sequences
#include "gx.hpp"
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/deque_point_sequence.hpp>
using namespace vh; using namespace gx;
using V = std::vector<P>;
static void measure(const V& v, const Frame& f) {
    record("measure", arr(v), [&] {
        pgon a = mkpoly(v, f); auto rv = reverse(a);
        auto ip = [&](const pt& p) { return Raw{ arr(fix(f.ix(p[0]), 1), fix(f.iy(p[1]), 1)) }; };
        std::vector<Raw> back, sg, sl, nx; std::vector<bool> cc;
        for (auto& p : rv) back.push_back(ip(p));
        for (std::size_t i = 0; i < v.size(); ++i) { cc.push_back(is_point_concave(a, i)); nx.push_back(Raw{ arr(next_index(a, i) + 1, prev_index(a, i) + 1) }); }
        for (auto& s : polygon_as_segment_range<seg>(a)) sg.push_back(Raw{ arr(ip(s.get_start()), ip(s.get_end())) });
        for (auto& s : polyline_as_segment_range<seg>(mkline(v, f))) sl.push_back(Raw{ arr(ip(s.get_start()), ip(s.get_end())) });
        QP c; if (area2(v)) { Frame n = near(f); c = out(get_centroid(mkpoly(v, n)), n, 200000); }
        return arr(rat(f.isq(get_signed_area(a)), 20000), rat(f.isq(get_area(a)), 20000), c, back, cc, sg, sl, nx);
    });
}
// the same sequence held in containers of every kind
template <class C> static std::string held(const C& a, const V& v, std::size_t i, std::size_t j, const Frame& f) {
    auto box = [&](const std::tuple<double, double, double, double>& b) { return Raw{ arr(rat(f.ix(std::get<e_xmin>(b))), rat(f.ix(std::get<e_xmax>(b))), rat(f.iy(std::get<e_ymin>(b))), rat(f.iy(std::get<e_ymax>(b)))) }; };
    QP c; if (area2(v)) c = out(get_centroid(a), f, 200000);
    auto w = get_bounds(a, cmp()), s = get_bounds(a, std::make_tuple(i, j), cmp()), t = get_bounds(a, std::make_tuple(std::size_t(0), i), cmp());
    std::vector<bool> cc; for (std::size_t k = 0; k < v.size(); ++k) cc.push_back(is_point_concave(a, k));
    return arr(rat(f.isq(get_signed_area(a)), 20000), rat(f.isq(get_area(a)), 20000), c, box(w), box(s), box(update_bound(s, t)), cc, point_sequences_equal(a, mkpoly(v, f), cmp()));
}
static void held(const V& v, std::size_t i, std::size_t j, const Frame& g) {
    Frame f = near(g);
    record("held", arr(v, i + 1, j + 1), [&] {
        pgon a = mkpoly(v, f);
        std::vector<Raw> r{ Raw{ held(a, v, i, j, f) }, Raw{ held(mkline(v, f), v, i, j, f) }, Raw{ held(std::vector<pt>(a.begin(), a.end()), v, i, j, f) }, Raw{ held(std::deque<pt>(a.begin(), a.end()), v, i, j, f) } };
        if (v.size() == 3) r.push_back(Raw{ held(std::array<pt, 3>{ { a[0], a[1], a[2] } }, v, i, j, f) });
        if (v.size() == 5) r.push_back(Raw{ held(std::array<pt, 5>{ { a[0], a[1], a[2], a[3], a[4] } }, v, i, j, f) });
        return js(r);
    });
}
// other coordinate types
template <class T, class C> static std::string typed(const V& v, std::size_t i, std::size_t j, const C& k) {
    using p2 = point<T, 2>; polygon<p2> a; for (P p : v) a.push_back(p2((T)p.x, (T)p.y));
    auto box = [&](const std::tuple<T, T, T, T>& b) { return Raw{ arr(Q{ (long)std::get<e_xmin>(b), 1 }, Q{ (long)std::get<e_xmax>(b), 1 }, Q{ (long)std::get<e_ymin>(b), 1 }, Q{ (long)std::get<e_ymax>(b), 1 }) }; };
    auto w = get_bounds(a, k), s = get_bounds(a, std::make_tuple(i, j), k), t = get_bounds(a, std::make_tuple(std::size_t(0), i), k);
    std::vector<P> back; std::vector<bool> cc; for (auto& p : reverse(a)) back.push_back({ (long)p[0], (long)p[1] }); for (std::size_t m = 0; m < v.size(); ++m) cc.push_back(is_point_concave(a, m));
    return arr(box(w), box(s), box(update_bound(s, t)), back, cc);
}
static void typed(const V& v, std::size_t i, std::size_t j) {
    record("typed", arr(v, i + 1, j + 1), [&] { direct_comparison_policy d; return arr(Raw{ typed<int>(v, i, j, d) }, Raw{ typed<float>(v, i, j, d) }, Raw{ typed<long>(v, i, j, d) }); });
}
static void space(const std::vector<std::array<int, 3>>& v, std::size_t i, std::size_t j, double s) {
    record("space", arr(v, i + 1, j + 1), [&] {
        polyline<pt3> a; for (auto& p : v) a.push_back(pt3(p[0] * s, p[1] * s, p[2] * s));
        auto box = [&](const std::tuple<double, double, double, double, double, double>& b) { return Raw{ arr(rat(std::get<e_xmin>(b) / s), rat(std::get<e_xmax>(b) / s), rat(std::get<e_ymin>(b) / s), rat(std::get<e_ymax>(b) / s), rat(std::get<e_zmin>(b) / s), rat(std::get<e_zmax>(b) / s)) }; };
        auto w = get_bounds(a, cmp()), q = get_bounds(a, std::make_tuple(i, j), cmp()), t = get_bounds(a, std::make_tuple(std::size_t(0), i), cmp());
        return arr(box(w), box(q), box(update_bound(q, t)));
    });
}
static void same(const V& u, const V& v, int off, const Frame& f) {
    record("same", arr(u, v, off), [&] {
        pgon a = mkpoly(u, f), b = mkpoly(v, f); long o = -2;
        if (u.size() == v.size()) { auto z = polygon_polygon_offset(a, b, cmp()); o = z > 1000 ? -1 : (long)z; }
        return arr(point_sequences_equal(a, b, cmp()), polygons_equal(a, b, off, cmp()), o);
    });
}
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 3; far_ok() = true;
    const bool th = opts().thorough;
    V g; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) g.push_back({ x, y });
    std::uint64_t k = 0;
    for (P a : g) for (P b : g) for (P c : g) { if (mine(k++)) measure({ a, b, c }, frames()[k % 4]); for (P d : g) if (mine(k++)) measure({ a, b, c, d }, frames()[k % 4]); }
    Rng r = stream("c26");
    int cnt = th ? 40000 : 4000;
    for (int i = 0; i < cnt; ++i) {
        int R = r.pick(std::vector<int>{ 4, 9, 20 });
        V v = r.chance(60) ? rnd_simple(r, r.in(3, 10), -R, R) : V();
        if (v.empty()) { int n = r.in(3, 9); while (n--) v.push_back(rnd_pt(r, -6, 6)); }
        measure(v, rnd_frame(r));
        { std::size_t i = r.in(0, (int)v.size() - 1), j = r.in((int)i, (int)v.size() - 1); held(v, i, j, rnd_frame(r)); typed(v, i, j); }
        { std::vector<std::array<int, 3>> q; int n = r.in(1, 7); while (n--) q.push_back({ { r.in(-9, 9), r.in(-9, 9), r.in(-9, 9) } }); std::size_t i = r.in(0, (int)q.size() - 1), j = r.in((int)i, (int)q.size() - 1); space(q, i, j, r.pick(std::vector<double>{ 1, 0.25, 64 })); }
        V u = v; int off = r.in(0, (int)v.size() - 1); std::rotate(u.begin(), u.begin() + off, u.end());
        int m = r.in(0, 5); int o2 = ((int)v.size() - off) % (int)v.size();
        if (m == 0) o2 = r.in(0, (int)v.size() - 1);
        if (m == 1) u[r.next() % u.size()].x += 1;
        if (m == 2) u.pop_back();
        if (m == 3) { u = v; o2 = 0; }
        same(v, u, o2, rnd_frame(r));
    }
    for (int i = 0, c = th ? 600 : 60; i < c; ++i) {    // many points
        V v = r.chance(50) ? rnd_star(r, r.in(20, 200), r.in(9, 40)) : V(); if (v.empty()) { int n = r.in(20, 300); while (n--) v.push_back(rnd_pt(r, -6, 6)); }
        measure(v, rnd_frame(r)); { std::size_t i = r.in(0, (int)v.size() - 1), j = r.in((int)i, (int)v.size() - 1); held(v, i, j, rnd_frame(r)); }
        V u = v; int off = r.in(0, (int)v.size() - 1); std::rotate(u.begin(), u.begin() + off, u.end()); if (r.chance(30)) u[r.next() % u.size()].y += 1; same(v, u, ((int)v.size() - off) % (int)v.size(), rnd_frame(r));
    }
    return end();
}
