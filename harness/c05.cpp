// C05: point in polygon
#include "gx.hpp"
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
using namespace vh; using namespace gx;
using V = std::vector<P>;
static Raw tup(bool a, bool b, bool c, int d, int e, int f) { return Raw{ arr(a, b, c, d, e, f) }; }
static void pip(const V& v, const V& q, int rot, const Frame& f) {
    record("pip", arr(v, q), [&] {
        V w = v, u = v; std::rotate(w.begin(), w.begin() + rot % w.size(), w.end()); std::reverse(u.begin(), u.end());
        pgon a = mkpoly(v, f), b = mkpoly(w, f), c = mkpoly(u, f);
        std::vector<Raw> o;
        for (P p : q) { pt z = mk(p, f); o.push_back(tup(point_in_polygon(z, a), point_in_polygon(z, b), point_in_polygon(z, c), (int)point_polygon_containment_or_on_border(z, a, cmp()), (int)point_polygon_containment_or_on_border(z, b, cmp()), (int)point_polygon_containment_or_on_border(z, c, cmp()))); }
        return js(o);
    });
}
// the same for other coordinate types
template <class T, class C> static std::string plain(const V& v, const V& q, const C& k) {
    using p2 = point<T, 2>; polygon<p2> a; std::vector<p2> b; for (P p : v) { a.push_back(p2((T)p.x, (T)p.y)); b.push_back(a.back()); }
    std::vector<Raw> o; for (P p : q) { p2 z((T)p.x, (T)p.y); o.push_back(Raw{ arr(point_in_polygon(z, a), point_in_polygon(z, b)) }); }
    return js(o);
}
static void plain(const V& v, const V& q) {
    record("plain", arr(v, q), [&] { direct_comparison_policy dc; return arr(Raw{ plain<int>(v, q, dc) }, Raw{ plain<float>(v, q, dc) }, Raw{ plain<long>(v, q, dc) }); });
}
static void convex(const V& v, const V& q, const Frame& f) {
    record("convex", arr(v, q), [&] {
        pgon a = mkpoly(v, f); std::vector<Raw> o;
        for (P p : q) {
            pt z = mk(p, f); std::vector<bool> b;
            b.push_back(point_in_convex_polygon(z, a, cmp()));
            b.push_back(point_polygon_containment_or_on_border(z, a, cmp()) != polygon_containment::exterior);
            if (v.size() == 4) b.push_back(point_in_convex_quadrilateral(z, a, cmp()));
            if (v.size() == 3) b.push_back(point_in_triangle(z, a[0], a[1], a[2], cmp()));
            o.push_back(Raw{ js(b) });
        }
        return js(o);
    });
}
static void cells(const std::vector<V>& ps, const V& whole, const V& q, const Frame& f) {
    record("cells", arr(ps, whole, q), [&] {
        std::vector<Raw> o;
        for (P p : q) { std::vector<bool> b; for (auto& v : ps) b.push_back(point_in_polygon(mk(p, f), mkpoly(v, f))); o.push_back(Raw{ js(b) }); }
        return js(o);
    });
}
static V queries(Rng& r, const V& v, int n, int pad) {
    long lx = v[0].x, ly = v[0].y, hx = lx, hy = ly; for (P p : v) { lx = std::min(lx, p.x); ly = std::min(ly, p.y); hx = std::max(hx, p.x); hy = std::max(hy, p.y); }
    V q;
    for (int i = 0; i < n; ++i) {
        P p{ r.in(lx - pad, hx + pad), r.in(ly - pad, hy + pad) };
        P a = r.pick(v); int m = r.in(0, 9);
        if (m == 0) p = a; else if (m <= 3) p.y = a.y; else if (m == 4) p.x = a.x;
        else if (m <= 6) { std::size_t k = r.next() % v.size(); P s = v[k], e = v[(k + 1) % v.size()]; long g = gcdl(e.x - s.x, e.y - s.y); long t = g ? r.in(0, g) : 0; if (g) p = { s.x + t * (e.x - s.x) / g, s.y + t * (e.y - s.y) / g }; }
        q.push_back(p);
    }
    return q;
}
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 3; far_ok() = true;
    const bool th = opts().thorough;
    // all triangles (and, thinned, all quadrilaterals) on a small grid against all points
    V g, all; for (int x = 0; x < 4; ++x) for (int y = 0; y < 4; ++y) g.push_back({ x, y });
    for (int x = -1; x <= 4; ++x) for (int y = -1; y <= 4; ++y) all.push_back({ x, y });
    std::uint64_t k = 0;
    for (P a : g) for (P b : g) for (P c : g) {
        V v{ a, b, c };
        if (simple(v, false)) { if (mine(k++) && (th || k % 2 == opts().seed % 2)) pip(v, all, 1, frames()[k % 7]); if (area2(v) > 0 && mine(k)) convex(v, all, frames()[k % 7]); }
    }
    std::uint64_t j = 0;
    for (P a : g) for (P b : g) for (P c : g) for (P d : g) {
        V v{ a, b, c, d };
        if (!simple(v) || !(a < b && a < c && a < d)) continue;
        ++j;
        if (!th && j % 8 != opts().seed % 8) continue;
        if (mine(j / 8)) { pip(v, all, 1 + j % 3, frames()[j % 7]); if (convex_strict(v) && area2(v) > 0) convex(v, all, frames()[j % 7]); }
    }
    Rng r = stream("c05");
    int cnt = th ? 15000 : 900;
    for (int i = 0; i < cnt; ++i) {
        int R = r.pick(std::vector<int>{ 3, 6, 15 });
        V v = r.chance(25) ? rnd_comb(r, r.in(1, 5), 5) : rnd_simple(r, r.in(3, 12), -R, R);
        if (!simple(v)) continue;
        pip(v, queries(r, v, 14, 2), r.in(1, 9), rnd_frame(r));
        if (i % 3 == 0) plain(v, queries(r, v, 14, 2));
        V c = rnd_convex(r, r.in(4, 14), -R, R);
        if (area2(c) < 0) std::reverse(c.begin(), c.end());
        std::rotate(c.begin(), c.begin() + r.next() % c.size(), c.end());
        convex(c, queries(r, c, 14, 2), rnd_frame(r));
        // fan partition of a convex polygon, pieces in either orientation
        std::vector<V> fan; for (std::size_t m = 1; m + 1 < c.size(); ++m) { V t{ c[0], c[m], c[m + 1] }; if (r.chance(50)) std::reverse(t.begin(), t.end()); fan.push_back(t); }
        V q = queries(r, c, 6, 1); for (auto& t : fan) { V q2 = queries(r, t, 3, 0); q.insert(q.end(), q2.begin(), q2.end()); }
        cells(fan, c, q, rnd_frame(r));
    }
    for (int i = 0, c = th ? 900 : 60; i < c; ++i) {    // many corners
        int n = r.pick(std::vector<int>{ 17, 33, 70, 140 }); V v = r.chance(25) ? rnd_comb(r, r.in(8, 60), 9) : rnd_star(r, n, r.in(10, 120));
        pip(v, queries(r, v, 30, 2), r.in(1, 99), rnd_frame(r));
        V h = rnd_convex(r, 400, -120, 120); std::rotate(h.begin(), h.begin() + r.next() % h.size(), h.end()); convex(h, queries(r, h, 30, 2), rnd_frame(r));
        { V z = rnd_zonogon(r, r.pick(std::vector<int>{ 15, 40, 90 }), 40); if (area2(z) < 0) std::reverse(z.begin(), z.end()); if (convex_strict(z)) { std::rotate(z.begin(), z.begin() + r.next() % z.size(), z.end()); convex(z, queries(r, z, 30, 2), rnd_frame(r)); if (r.chance(30)) pip(z, queries(r, z, 12, 2), r.in(1, 99), rnd_frame(r)); } }
        if (i % 8 == 0) { V w = r.chance(30) ? rnd_comb(r, r.in(130, 200), 40) : rnd_star(r, r.pick(std::vector<int>{ 270, 330, 520 }), 1500); pip(w, queries(r, w, 40, 2), r.in(1, 99), rnd_frame(r)); }
    }
    for (int i = 0, n = th ? 9000 : 600; i < n; ++i) {      // points very close to a long border
        P a, b, c; rnd_thin(r, a, b, c); P d = rnd_pt(r, -9000, 9000); V v{ a, b, d }; if (!simple(v, false)) continue;
        V q{ c, { c.x, c.y + 1 }, { c.x + 1, c.y }, { c.x, c.y - 1 }, { c.x - 1, c.y }, { a.x, c.y }, a };
        const Frame& f = r.chance(20) ? scale_frames()[0] : frames()[r.pick(std::vector<int>{ 0, 1, 3, 4 })]; pip(v, q, r.in(1, 2), f); if (area2(v) > 0) convex(v, q, f);   // (the border test computes with a rounded slope)
    }
    return end();
}
