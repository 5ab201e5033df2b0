// C02: segment/segment intersection in the plane and in space
#include "gx.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
using namespace vh; using namespace gx;

static void ssi(P a, P b, P c, P d, const Frame& f) {
    record("ssi", arr(a, b, c, d), [&] {
        pt x[2] = { pt(f.x(-777), f.y(-777)), pt(f.x(-777), f.y(-777)) };
        int t = (int)segment_segment_intersection(mk(a, f), mk(b, f), mk(c, f), mk(d, f), x, cmp());
        pt y[2] = { x[0], x[0] };
        int t2 = (int)segment_segment_intersection(seg(mk(a, f), mk(b, f)), seg(mk(c, f), mk(d, f)), y, cmp());
        pt* none = nullptr;
        int t3 = (int)segment_segment_intersection(mk(a, f), mk(b, f), mk(c, f), mk(d, f), none, cmp());
        std::vector<QP> q, q2;
        if (t == 1 || t == 3) q.push_back(out(x[0], f));
        if (t == 2) { q.push_back(out(x[0], f)); q.push_back(out(x[1], f)); }
        if (t2 == 1 || t2 == 3) q2.push_back(out(y[0], f));
        if (t2 == 2) { q2.push_back(out(y[0], f)); q2.push_back(out(y[1], f)); }
        return arr(t, q, t2, q2, t3);
    });
}
// only the kind: nearly collinear segments far apart (meeting points with large denominators are not printed)
static void kind(P a, P b, P c, P d, const Frame& f) {
    record("ssk", arr(a, b, c, d), [&] {
        pt x[2], y[2]; pt* none = nullptr;
        return arr((int)segment_segment_intersection(mk(a, f), mk(b, f), mk(c, f), mk(d, f), x, cmp()), (int)segment_segment_intersection(seg(mk(a, f), mk(b, f)), seg(mk(c, f), mk(d, f)), y, cmp()), (int)segment_segment_intersection(mk(a, f), mk(b, f), mk(c, f), mk(d, f), none, cmp()));
    });
}
struct P3 { long v[3]; };
static std::string j3(P3 p) { return "[" + js(p.v[0]) + "," + js(p.v[1]) + "," + js(p.v[2]) + "]"; }
static pt3 mk3(P3 p, double s, double t) { return pt3(p.v[0] * s + t, p.v[1] * s + t, p.v[2] * s - t); }
static void ssi3(P3 a, P3 b, P3 c, P3 d, int fr) {
    static const double sc[] = { 1, 1, 4, 0.5 }, tr[] = { 0, 5, -32, 1 };
    double s = sc[fr], t = tr[fr];
    record("ssi3", "[" + j3(a) + "," + j3(b) + "," + j3(c) + "," + j3(d) + "]", [&] {
        pt3 x[2] = { mk3({ { -99, -99, -99 } }, s, t), mk3({ { -99, -99, -99 } }, s, t) };
        int ty = (int)segment_segment_intersection(mk3(a, s, t), mk3(b, s, t), mk3(c, s, t), mk3(d, s, t), x, cmp());
        auto o = [&](const pt3& p) { return ratp3((p[0] - t) / s, (p[1] - t) / s, (p[2] + t) / s); };
        std::vector<QP3> q;
        if (ty == 1 || ty == 3) q.push_back(o(x[0]));
        if (ty == 2) { q.push_back(o(x[0])); q.push_back(o(x[1])); }
        return arr(ty, q);
    });
}
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 3; far_ok() = true;
    const bool th = opts().thorough;
    std::uint64_t k = 0;
    // exhaustive small scope (one frame per scene, rotating)
    int n = th ? 5 : 4;
    std::vector<P> g;
    for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) g.push_back({ x, y });
    for (P a : g) for (P b : g) for (P c : g) for (P d : g) {
        if (a == b || c == d) continue;
        if (!th && b < a && (k % 3)) { ++k; continue; }
        if (mine(k)) ssi(a, b, c, d, frames()[(k / opts().shards) % frames().size()]);
        ++k;
    }
    // random, biased to degeneracy
    Rng r = stream("c02");
    int cnt = th ? 60000 : 3500;
    for (int i = 0; i < cnt; ++i) {
        int R = r.pick(std::vector<int>{ 3, 6, 12, 30 });
        P a = rnd_pt(r, -R, R), b = rnd_pt(r, -R, R), c = rnd_pt(r, -R, R), d = rnd_pt(r, -R, R);
        if (a == b) continue;
        long ux = b.x - a.x, uy = b.y - a.y; long gg = gcdl(ux, uy); ux /= gg; uy /= gg;
        switch (r.in(0, 7)) {
        case 0: { int m = r.in(-2, 4); c = { a.x + m * ux, a.y + m * uy }; break; }                                   // c on the line
        case 1: { int m = r.in(-4, 6), q = r.in(-4, 6); c = { a.x + m * ux, a.y + m * uy }; d = { a.x + q * ux, a.y + q * uy }; break; } // collinear
        case 2: { long dx = r.in(-3, 3), dy = r.in(-3, 3); c = { a.x + dx, a.y + dy }; int m = r.in(1, 4); d = { c.x + m * ux, c.y + m * uy }; break; } // parallel
        case 3: c = r.chance(50) ? a : b; break;                                                                      // shared end point
        case 4: { int m = r.in(0, (int)gg); P p{ a.x + m * ux, a.y + m * uy }; int vx = r.in(-4, 4), vy = r.in(-4, 4); int k1 = r.in(0, 3), k2 = r.in(0, 3); c = { p.x - k1 * vx, p.y - k1 * vy }; d = { p.x + k2 * vx, p.y + k2 * vy }; break; }
        default: break;
        }
        auto far = [](P p) { return std::labs(p.x) > 40 || std::labs(p.y) > 40; };
        if (c == d || far(c) || far(d)) continue;
        if (r.chance(50)) { std::swap(a, c); std::swap(b, d); }
        ssi(a, b, c, d, rnd_frame(r));
    }
    // space
    auto p3 = [&](int R) { P3 p; for (long& v : p.v) v = r.in(-R, R); return p; };
    int c3 = th ? 60000 : 4000;
    for (int i = 0; i < c3; ++i) {
        int R = r.chance(50) ? 1 : r.in(2, 4);
        P3 a = p3(R), b = p3(R), c = p3(R), d = p3(R);
        P3 u = p3(2), v = p3(2);
        int mode = r.in(0, 5);
        if (mode <= 2) {                                  // coplanar by construction: combinations of u and v
            auto comb = [&](int m, int q) { P3 p; for (int t = 0; t < 3; ++t) p.v[t] = a.v[t] + m * u.v[t] + q * v.v[t]; return p; };
            if (mode == 0) { b = comb(r.in(-2, 2), 0); c = comb(r.in(-2, 2), r.in(-1, 1)); d = comb(r.in(-2, 2), r.in(-1, 1)); }
            else if (mode == 1) { b = comb(2, 0); c = comb(1, -r.in(0, 2)); d = comb(1, r.in(0, 2)); }
            else { b = comb(r.in(1, 2), 0); c = comb(r.in(-3, 3), 0); d = comb(r.in(-3, 3), 0); }
        }
        auto eq = [](P3 p, P3 q) { return p.v[0] == q.v[0] && p.v[1] == q.v[1] && p.v[2] == q.v[2]; };
        if (eq(a, b) || eq(c, d)) continue;
        ssi3(a, b, c, d, r.in(0, 3));
    }
    for (int i = 0, n = th ? 20000 : 1200; i < n; ++i) {
        P a, b, c; rnd_thin(r, a, b, c); P d = rnd_pt(r, -9000, 9000); if (r.chance(30)) { P e; rnd_thin(r, e, e, d); } if (r.chance(30)) std::swap(a, b); if (r.chance(30)) std::swap(b, c);
        if (a != b && c != d) { kind(a, b, c, d, near(rnd_frame(r))); kind(d, c, a, b, near(rnd_frame(r))); }
    }
    return end();
}
