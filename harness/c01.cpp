// C01: orientation, betweenness, lexicographic predicates
#include "gx.hpp"
#include <set>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/point_in_circumcircle.hpp>
using namespace vh; using namespace gx;
static void tri(P a, P b, P c, const Frame& f) {
    record("tri", arr(a, b, c), [&] {
        pt A = mk(a, f), B = mk(b, f), C = mk(c, f);
        vec u = B - A, v = C - A;
        lexicographical_comparer<cmp_t> lex(cmp());
        reverse_lexicographical_point_compare<cmp_t> rlex(cmp());
        dimension_compare<0, cmp_t> d0(cmp()); dimension_compare<1, cmp_t> d1(cmp());
        bool coll = is_collinear(A, B, C, cmp());
        bool c1 = coll && is_collinear_point_between(A, B, C, true, cmp()), c2 = coll && is_collinear_point_between(A, B, C, false, cmp());
        Q sl, yx, xy;
        if (a.x != b.x) { sl = rat(get_slope(A, B)); double m1 = -99; yx = rat(f.iy(y_of_x(A, B, C[0], m1))); auto ne = [](Q x, Q y) { return x.n != y.n || x.d != y.d; }; if (ne(rat(get_slope(seg(A, B))), sl) || ne(rat(m1), sl) || f.iy(y_of_x(A, B, C[0])) != f.iy(y_of_x(A, B, C[0], m1))) sl = Q(); }
        if (a.x != b.x && a.y != b.y) xy = rat(f.ix(x_of_y(A, B, C[1])));
        return arr((int)get_orientation(A, B, C, cmp()), (int)get_orientation(u, v, cmp()), coll,
            is_between(A, B, C, true, cmp()), is_between(A, B, C, false, cmp()), c1, c2,
            is_vertical(A, B, cmp()), is_horizontal(seg(A, B), cmp()), is_vertical(seg(A, B), cmp()), is_horizontal(A, B, cmp()),
            lex(A, B), lex(B, A), lexicographically_less_than(A, B, cmp()), rlex(A, B), numeric_sequence_equals(A, B, cmp()),
            d0(A, B), d1(A, B), lexicographical_compare(a.x, b.x, a.y, b.y, c.x, c.y), sl, yx, xy);
    });
}
static void thin(P a, P b, P c, P d, const Frame& f) {
    record("thin", arr(a, b, c, d), [&] {
        pt A = mk(a, f), B = mk(b, f), C = mk(c, f), D = mk(d, f); vec u = B - A, v = C - A;
        return arr((int)get_orientation(A, B, C, cmp()), (int)get_orientation(u, v, cmp()), is_collinear(A, B, C, cmp()), is_between(A, B, C, true, cmp()), is_between(A, B, C, false, cmp()), c == d ? 9 : (int)oriented_intersection(A, B, C, D, cmp()), c == d ? 9 : (int)oriented_intersection(C, D, A, B, cmp()));
    });
}
// the same for other coordinate types
template <class T, class C> static void typed(P a, P b, P c, P d, const C& k) {
    record("thin", arr(a, b, c, d), [&] {
        using p2 = point<T, 2>; using v2 = geometrix::vector<T, 2>; p2 A((T)a.x, (T)a.y), B((T)b.x, (T)b.y), C_((T)c.x, (T)c.y), D((T)d.x, (T)d.y); v2 u = B - A, v = C_ - A;
        return arr((int)get_orientation(A, B, C_, k), (int)get_orientation(u, v, k), is_collinear(A, B, C_, k), is_between(A, B, C_, true, k), is_between(A, B, C_, false, k), c == d ? 9 : (int)oriented_intersection(A, B, C_, D, k), c == d ? 9 : (int)oriented_intersection(C_, D, A, B, k));
    });
}
static void circum(P a, P b, P c, P p, const Frame& f) {       // a, b, c counter-clockwise
    record("circum", arr(a, b, c, p), [&] { return arr((int)point_in_circumcircle(mk(a, f), mk(b, f), mk(c, f), mk(p, f), cmp())); });
}
static void quad(P a, P b, P c, P d, const Frame& f) {
    record("quad", arr(a, b, c, d), [&] {
        lexicographical_segment_compare<cmp_t> sc(cmp()); segment_interval_compare<cmp_t> ic(cmp());
        seg s(mk(a, f), mk(b, f)), t(mk(c, f), mk(d, f));
        return arr((int)oriented_intersection(mk(a, f), mk(b, f), mk(c, f), mk(d, f), cmp()), sc(s, t), sc(t, s), ic(s, t));
    });
}
// the points come out in the one order the comparison prescribes, whatever order they went in
template <class C> static std::string sorted(std::vector<pt> v, const C& c, const Frame& f, bool stable) { if (stable) std::stable_sort(v.begin(), v.end(), c); else { std::multiset<pt, C> s(v.begin(), v.end(), c); v.assign(s.begin(), s.end()); } std::vector<P> r; for (auto& p : v) r.push_back({ (long)f.ix(p[0]), (long)f.iy(p[1]) }); return js(r); }
static void sorting(const std::vector<P>& in, const Frame& f, bool st) {
    record("sorted", arr(Raw{ js(in) }), [&] {
        std::vector<pt> v; for (P p : in) v.push_back(mk(p, f));
        return arr(Raw{ sorted(v, lexicographical_comparer<cmp_t>(cmp()), f, st) }, Raw{ sorted(v, reverse_lexicographical_point_compare<cmp_t>(cmp()), f, st) }, Raw{ sorted(v, dimension_compare<0, cmp_t>(cmp()), f, st) }, Raw{ sorted(v, dimension_compare<1, cmp_t>(cmp()), f, st) });
    });
}
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 3; far_ok() = true;
    const bool th = opts().thorough;
    std::uint64_t k = 0;
    int n = th ? 5 : 4;
    std::vector<P> g;
    for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) g.push_back({ x, y });
    for (P a : g) for (P b : g) for (P c : g) { if (mine(k)) for (const Frame& f : frames()) tri(a, b, c, f); ++k; }
    for (P a : g) for (P b : g) for (P c : g) for (P d : g) {
        if (a == b || c == d) continue;
        if ((th || k % 3 == opts().seed % 3) && mine(k / 3)) quad(a, b, c, d, frames()[(k / 24) % frames().size()]);
        ++k;
    }
    Rng r = stream("c01");
    int cnt = th ? 60000 : 4000;
    for (int i = 0; i < cnt; ++i) {
        int R = r.pick(std::vector<int>{ 3, 8, 40 });
        P a = rnd_pt(r, -R, R), b = rnd_pt(r, -R, R), c = rnd_pt(r, -R, R);
        if (r.chance(50)) { long g2 = gcdl(b.x - a.x, b.y - a.y); if (g2) { int m = r.in(-1, (int)g2 + 1); c = { a.x + m * (b.x - a.x) / g2, a.y + m * (b.y - a.y) / g2 }; } }
        tri(a, b, c, rnd_frame(r));
        P d = rnd_pt(r, -R, R);
        { int W = r.pick(std::vector<int>{ 2, 4, 8 }); P e = rnd_pt(r, -W, W), g1 = rnd_pt(r, -W, W), h = rnd_pt(r, -W, W), q = rnd_pt(r, -W, W); long o = cross(e, g1, h); if (o < 0) std::swap(g1, h);
          if (r.chance(25)) { static const std::vector<P> on{ { 5, 0 }, { 3, 4 }, { 0, 5 }, { -4, 3 }, { -3, -4 }, { 4, -3 }, { 4, 3 }, { 0, -5 } }; std::size_t i0 = r.in(0, 7), i1 = r.in(0, 7), i2 = r.in(0, 7); P s0 = rnd_pt(r, -2, 2); auto t = [&](std::size_t z) { return P{ on[z].x + s0.x, on[z].y + s0.y }; }; e = t(i0); g1 = t(i1); h = t(i2); q = t(r.in(0, 7)); if (r.chance(30)) q = rnd_pt(r, -6, 6); o = cross(e, g1, h); if (o < 0) std::swap(g1, h); }
          if (o) circum(e, g1, h, q, frames()[r.next() % 4]); }
        if (a == b || c == d) continue;
        quad(a, b, c, d, rnd_frame(r)); quad(c, d, a, b, rnd_frame(r));
    }
    for (int i = 0; i < cnt / 4; ++i) { P a, b, c; rnd_thin(r, a, b, c); thin(a, b, c, rnd_pt(r, -9000, 9000), rnd_frame(r)); }
    for (int i = 0; i < cnt / 2; ++i) {
        int R = r.pick(std::vector<int>{ 2, 5, 500 }); P a = rnd_pt(r, -R, R), b = rnd_pt(r, -R, R), c = rnd_pt(r, -R, R), d = rnd_pt(r, -R, R);
        if (r.chance(50)) { long g2 = gcdl(b.x - a.x, b.y - a.y); if (g2) { int m = r.in(-1, (int)g2 + 1); c = { a.x + m * (b.x - a.x) / g2, a.y + m * (b.y - a.y) / g2 }; } }
        direct_comparison_policy dc; absolute_tolerance_comparison_policy<float> fc(1e-4f); absolute_tolerance_comparison_policy<long double> lc(1e-12L);
        typed<int>(a, b, c, d, dc); typed<float>(a, b, c, d, fc); if (i % 2) typed<long>(a, b, c, d, dc); else typed<long double>(a, b, c, d, lc);
    }
    for (int i = 0; i < cnt / 2; ++i) {
        long a[3], b[3]; for (int j = 0; j < 3; ++j) { a[j] = r.in(-2, 2); b[j] = r.chance(60) ? a[j] : r.in(-2, 2); }
        record("space", arr(std::array<long, 3>{ { a[0], a[1], a[2] } }, std::array<long, 3>{ { b[0], b[1], b[2] } }), [&] {
            pt3 A(a[0] * .5, a[1] * .5, a[2] * .5), B(b[0] * .5, b[1] * .5, b[2] * .5);
            lexicographical_comparer<cmp_t> lex(cmp()); reverse_lexicographical_point_compare<cmp_t> rlex(cmp());
            dimension_compare<0, cmp_t> d0(cmp()); dimension_compare<1, cmp_t> d1(cmp()); dimension_compare<2, cmp_t> d2(cmp());
            return arr(lex(A, B), lex(B, A), rlex(A, B), numeric_sequence_equals(A, B, cmp()), d0(A, B), d1(A, B), d2(A, B));
        });
        if (i % 2 == 0) { int R = r.pick(std::vector<int>{ 1, 2, 20 }); std::vector<P> v; for (int j = r.in(1, 9); j > 0; --j) v.push_back(rnd_pt(r, -R, R)); sorting(v, rnd_frame(r), r.chance(50)); }
    }
    return end();
}
