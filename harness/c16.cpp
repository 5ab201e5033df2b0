// C16: plane sweep over a set of segments
#include "gx.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/bentley_ottmann_segment_intersection.hpp>
using namespace vh; using namespace gx;
using S2 = std::array<P, 2>;
struct Note { std::vector<Raw>* r; const seg* base; std::vector<seg>* local; Frame f; const std::vector<S2>* in;
    template <class Pt, class It> void operator()(const Pt& p, It b, It e) const {
        // the sweep works on its own copy: recognise the segments by their end points (duplicates: hand out in turn)
        std::vector<long> ids; std::vector<bool> used(in->size());
        for (; b != e; ++b) { QP s = out((*b)->get_start(), f), t = out((*b)->get_end(), f); long id = 0;
            for (std::size_t k = 0; k < in->size(); ++k) { if (used[k]) continue; P u = (*in)[k][0], v = (*in)[k][1]; if (v < u) std::swap(u, v); if (s.d == 1 && t.d == 1 && s.x == u.x && s.y == u.y && t.x == v.x && t.y == v.y) { used[k] = true; id = k + 1; break; } }
            ids.push_back(id); }
        r->push_back(Raw{ arr(out(p, f), ids) });
    } };
static void sweep(const std::vector<S2>& in, const Frame& f) {
    record("sweep", js(in), [&] {
        std::vector<Raw> r; std::vector<seg> v; for (auto& s : in) v.push_back(seg(mk(s[0], f), mk(s[1], f)));
        bentley_ottmann_segment_intersection(v, Note{ &r, v.data(), nullptr, f, &in }, cmp());
        return js(r);
    });
}
// points of whole numbers, scaled so that every crossing is a whole number too
typedef point<long, 2> ipt; typedef segment<ipt> iseg;
struct INote { std::vector<Raw>* r; long L; const std::vector<S2>* in;
    template <class It> void operator()(const ipt& p, It b, It e) const {
        std::vector<long> ids; std::vector<bool> used(in->size());
        for (; b != e; ++b) { ipt s = (*b)->get_start(), t = (*b)->get_end(); long id = 0;
            for (std::size_t k = 0; k < in->size(); ++k) { if (used[k]) continue; P u = (*in)[k][0], v = (*in)[k][1]; if (v < u) std::swap(u, v); if (s[0] == u.x * L && s[1] == u.y * L && t[0] == v.x * L && t[1] == v.y * L) { used[k] = true; id = k + 1; break; } }
            ids.push_back(id); }
        long x = p[0], y = p[1], g = gcdl(gcdl(x, y), L); r->push_back(Raw{ arr(QP{ x / g, y / g, L / g }, ids) });
    } };
static void isweep(const std::vector<S2>& in, long L0 = 0) {
    // crossing points are found in double arithmetic and cut to whole numbers: only scenes whose crossings it finds exactly are in scope
    long L = 1;
    for (auto& a : in) for (auto& b : in) {
        long rx = a[1].x - a[0].x, ry = a[1].y - a[0].y, sx = b[1].x - b[0].x, sy = b[1].y - b[0].y, d = rx * sy - ry * sx; if (!d) continue;
        long t = (b[0].x - a[0].x) * sy - (b[0].y - a[0].y) * sx, u = (b[0].x - a[0].x) * ry - (b[0].y - a[0].y) * rx; if (d < 0) d = -d, t = -t, u = -u;
        if (t < 0 || t > d || u < 0 || u > d) continue;
        long e = d / gcdl(d, t), e2 = d / gcdl(d, u); if (!L0 && ((e & (e - 1)) || (e2 & (e2 - 1)))) return;
        L = L0 ? L0 : std::max(L, std::max(e, e2));
    }
    record("wsweep", js(in), [&] {
        std::vector<Raw> r; std::vector<iseg> v; for (auto& s : in) v.push_back(iseg(ipt(s[0].x * L, s[0].y * L), ipt(s[1].x * L, s[1].y * L)));
        bentley_ottmann_segment_intersection(v, INote{ &r, L, &in }, direct_comparison_policy());
        return js(r);
    });
}
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 1;
    const bool th = opts().thorough;
    std::uint64_t k = 0;
    for (auto& s : script()) { std::vector<S2> v; for (std::size_t i = 0; i + 3 < s.size(); i += 4) { S2 e{ P{ s[i], s[i + 1] }, P{ s[i + 2], s[i + 3] } }; if ((k + i / 4) % 3 == 0) std::swap(e[0], e[1]); v.push_back(e); } if (k % 2) std::reverse(v.begin(), v.end()); if (th || k % 2 == 0 || v.size() < 3) sweep(v, frames()[k % 7]); ++k; }
    Rng r = stream("c16");
    for (int i = 0, c = th ? 15000 : 700; i < c; ++i) {
        int R = r.pick(std::vector<int>{ 2, 3, 4, 6, 9 }), n = r.in(2, r.chance(20) ? 14 : 7); std::vector<S2> v;
        int kind = r.in(0, 4);
        while ((int)v.size() < n) {
            P a = rnd_pt(r, -R, R), b = rnd_pt(r, -R, R);
            if (kind == 1) { if (r.chance(50)) a.x = b.x; else a.y = b.y; }                      // rectilinear
            if (kind == 2 && !v.empty()) { P q = v[r.in(0, v.size() - 1)][r.in(0, 1)]; a = q; }   // chains
            if (kind == 3) { long t = r.in(1, 2); b = P{ -a.x * t, -a.y * t }; }                  // pencil through the origin
            if (kind == 4 && r.chance(60)) { b = P{ a.x + r.in(-2, 2) * 2, a.y + r.in(-1, 1) * 2 }; }
            if (a != b) v.push_back({ a, b });
        }
        if (r.chance(10)) v.push_back(v[0]);
        if (r.chance(10)) v.push_back({ v[0][1], v[0][0] });
        sweep(v, rnd_frame(r)); isweep(v);
    }
    for (int i = 0, c = th ? 12000 : 1200; i < c; ++i) {    // few and short: whole-number sweeps
        int R = r.in(2, 5), n = r.in(2, 6); std::vector<S2> v; bool chain = r.chance(30);
        while ((int)v.size() < n) { P a = rnd_pt(r, -R, R), b = rnd_pt(r, -R, R); if (chain && !v.empty()) a = v[r.in(0, v.size() - 1)][r.in(0, 1)]; if (r.chance(15)) b.x = a.x; if (r.chance(10)) b.y = a.y; if (a != b) v.push_back({ a, b }); }
        isweep(v);
    }
    isweep({ S2{ P{ -1, 2 }, P{ 3, 1 } }, S2{ P{ 2, 4 }, P{ 2, -3 } } }, 28);
    // more crossings to come than three for each segment
    const std::vector<std::vector<std::array<int, 4>>> crowds{
        { { -24, -21, 27, 22 }, { -24, 10, 28, -14 }, { -25, -28, 28, 24 }, { -23, -4, 23, 0 }, { -18, -19, 26, 22 }, { -23, -17, 22, 11 }, { -23, -26, 23, 28 }, { -28, 14, 15, -9 }, { -23, 1, 22, -3 }, { -22, -10, 23, 11 } },
        { { -19, -19, 21, 19 }, { -25, -9, 28, 8 }, { -20, -3, 25, 2 }, { -20, 19, 18, -20 }, { -19, 17, 28, -19 }, { -27, 25, 22, -17 }, { -18, 3, 19, -2 }, { -15, 9, 23, -8 }, { -25, -11, 19, 17 }, { -28, -16, 20, 18 }, { -13, -16, 27, 26 }, { -14, 4, 24, -4 }, { -25, -2, 25, 6 }, { -19, -27, 28, 28 }, { -25, 3, 25, -2 }, { -8, 23, 23, -22 } } };
    for (auto& q : crowds) { std::vector<S2> v; for (auto& e : q) v.push_back({ P{ e[0], e[1] }, P{ e[2], e[3] } }); sweep(v, frames()[0]); for (auto& e : v) { e[0].y = -e[0].y; e[1].y = -e[1].y; } sweep(v, frames()[0]); }
    for (int i = 0, c = th ? 300 : 12; i < c; ++i) {    // every segment crosses every other
        int n = r.in(8, 20); std::vector<S2> v;
        while ((int)v.size() < n) { int y = r.in(-28, 28); v.push_back({ P{ -28 + r.in(0, n), y }, P{ r.in(16, 28), std::max(-28, std::min(28, -y + r.in(-4, 4))) } }); }
        sweep(v, frames()[0]);
    }
    for (int i = 0, c = th ? 120 : 10; i < c; ++i) {    // many segments
        int R = r.in(8, 16), n = r.in(20, 42); std::vector<S2> v; int kind = r.in(0, 2);
        while ((int)v.size() < n) { P a = rnd_pt(r, -R, R), b = kind == 0 ? rnd_pt(r, -R, R) : P{ a.x + r.in(-5, 5), a.y + r.in(-5, 5) }; if (kind == 2) { if (r.chance(50)) b.x = a.x; else b.y = a.y; } if (a != b) v.push_back({ a, b }); }
        sweep(v, rnd_frame(r));
    }
    return end();
}
