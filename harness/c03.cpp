// C03: line/line, line/segment, ray/segment, ray/line
#include "gx.hpp"
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_line_intersection.hpp>
#include <geometrix/primitive/line.hpp>
using namespace vh; using namespace gx;
struct Dir { long x, y, h; };
static std::string js_(Dir d) { return "[" + js(d.x) + "," + js(d.y) + "," + js(d.h) + "]"; }
static std::vector<Dir> dirs() {
    std::vector<Dir> v = { { 1, 0, 1 }, { -1, 0, 1 }, { 0, 1, 1 }, { 0, -1, 1 } };
    for (int sx : { 1, -1 }) for (int sy : { 1, -1 }) { v.push_back({ 3 * sx, 4 * sy, 5 }); v.push_back({ 4 * sx, 3 * sy, 5 }); v.push_back({ 5 * sx, 12 * sy, 13 }); }
    return v;
}
static void lines(P a, P b, P c, P d, const Frame& f) {
    record("lines", arr(a, b, c, d), [&] {
        pt x(0, 0), x2(0, 0), x3(0, 0); double s = 0, t = 0;
        int k1 = (int)line_line_intersect(mk(a, f), mk(b, f), mk(c, f), mk(d, f), x, cmp());
        int k2 = (int)line_line_intersect(mk(a, f), mk(b, f), mk(c, f), mk(d, f), x2, s, t, cmp());
        int k3 = (int)line_segment_intersect(mk(a, f), mk(b, f), mk(c, f), mk(d, f), x3, cmp());
        pt x4(0, 0); int k4 = (int)line_segment_intersect(mk(a, f), mk(b, f), seg(mk(c, f), mk(d, f)), x4, cmp());
        return arr(k1, out(x, f), k2, out(x2, f), rat(s, 20000), rat(t, 20000), k3, out(x3, f), k4, out(x4, f));
    });
}
static void ray(P o, Dir v, P a, P b, const Frame& f) {
    record("ray", "[" + js(o) + "," + js_(v) + "," + js(a) + "," + js(b) + "]", [&] {
        vec u(double(v.x) / v.h, double(v.y) / v.h);
        pt x[2] = { pt(0, 0), pt(0, 0) }, y[2] = { pt(0, 0), pt(0, 0) }; double t = 0, t1 = 0;
        int k1 = (int)ray_segment_intersection(mk(o, f), u, mk(a, f), mk(b, f), t, x, cmp());
        int k2 = (int)ray_segment_intersection(mk(o, f), u, seg(mk(a, f), mk(b, f)), t1, y, cmp());
        int k3 = (int)ray_segment_intersection(mk(o, f), u, mk(a, f), mk(b, f), cmp());
        int k4 = (int)ray_segment_intersection(mk(o, f), u, seg(mk(a, f), mk(b, f)), cmp());
        return arr(k1, rat(f.ilen(t), 20000), out(x[0], f), out(x[1], f), k2, rat(f.ilen(t1), 20000), out(y[0], f), out(y[1], f), k3, k4);
    });
}
static void rayline(P o, Dir v, P a, P b, const Frame& f) {
    record("rayline", "[" + js(o) + "," + js_(v) + "," + js(a) + "," + js(b) + "]", [&] {
        vec u(double(v.x) / v.h, double(v.y) / v.h);
        pt x(0, 0); double t = 0;
        auto r = ray_line_intersection(mk(o, f), u, line<pt>(mk(a, f), mk(b, f)), t, x, cmp());
        return arr(r.is_intersecting(), r.is_overlapping(), rat(f.ilen(t), 20000), out(x, f));
    });
}
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 1;
    const bool th = opts().thorough;
    std::uint64_t k = 0;
    std::vector<P> g;
    for (int x = 0; x < 4; ++x) for (int y = 0; y < 4; ++y) g.push_back({ x, y });
    for (P a : g) for (P b : g) for (P c : g) for (P d : g) {
        if (a == b || c == d) continue;
        if (!th && k % 4 != (opts().seed % 4)) { ++k; continue; }
        if (mine(k / 4)) lines(a, b, c, d, frames()[(k / 8) % frames().size()]);
        ++k;
    }
    auto ds = dirs();
    k = 0;
    std::vector<P> g5;
    for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) g5.push_back({ x, y });
    for (Dir d : ds) for (P a : g5) for (P b : g5) {
        if (a == b) continue;
        P o{ 0, 0 };
        if (mine(k)) { const Frame& f = frames()[(k / opts().shards) % frames().size()]; ray(o, d, a, b, f); rayline(o, d, a, b, f); }
        ++k;
    }
    Rng r = stream("c03");
    int cnt = th ? 60000 : 4000;
    for (int i = 0; i < cnt; ++i) {
        int R = r.pick(std::vector<int>{ 3, 6, 12, 20 });
        P a = rnd_pt(r, -R, R), b = rnd_pt(r, -R, R), c = rnd_pt(r, -R, R), d = rnd_pt(r, -R, R);
        if (a == b) continue;
        int m = r.in(0, 5);
        if (m == 0) { long q = r.in(1, 3); d = { c.x + q * (b.x - a.x), c.y + q * (b.y - a.y) }; if (std::labs(d.x) > 40 || std::labs(d.y) > 40) continue; }
        if (m == 1) c = r.chance(50) ? a : b;
        if (c == d) continue;
        lines(a, b, c, d, rnd_frame(r));
    }
    for (int i = 0; i < cnt; ++i) {
        int R = r.pick(std::vector<int>{ 2, 5, 10 });
        P a = rnd_pt(r, -R, R), b = rnd_pt(r, -R, R), o = rnd_pt(r, -R, R);
        Dir d = r.pick(ds);
        int m = r.in(0, 6);
        if (m == 0) { int s = r.in(-2, 2), q = r.in(-2, 2); a = { o.x + s * d.x, o.y + s * d.y }; b = { o.x + q * d.x, o.y + q * d.y }; }        // collinear
        else if (m == 1) { int s = r.in(-2, 2); a = { o.x + s * d.x, o.y + s * d.y }; }                                                             // end point on the ray's line
        else if (m == 2) { int s = r.in(1, 2); b = { a.x + s * d.x, a.y + s * d.y }; }                                                               // parallel
        else if (m == 3) { int s = r.in(-1, 2); P p{ o.x + s * d.x, o.y + s * d.y }; int vx = r.in(-3, 3), vy = r.in(-3, 3); a = { p.x - vx, p.y - vy }; b = { p.x + vx, p.y + vy }; }
        if (a == b) continue;
        const Frame f = rnd_frame(r);
        ray(o, d, a, b, f); rayline(o, d, a, b, f);
    }
    return end();
}
