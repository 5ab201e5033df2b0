// C28: a polyline moved sideways
#include "gx.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_sequence/polyline_offset.hpp>
using namespace vh; using namespace gx;
using V = std::vector<P>;
struct Step { long x, y, l; };
static std::vector<long> lens(const V& v) { std::vector<long> r; for (std::size_t i = 1; i < v.size(); ++i) { long a = v[i].x - v[i - 1].x, b = v[i].y - v[i - 1].y; r.push_back(std::lround(std::sqrt(double(a * a + b * b)))); } return r; }
static void scene(const V& v, int side, long n, long q, const Frame& f, bool trim = true) {
    auto o = side > 0 ? oriented_left : oriented_right; double d = f.len(double(n) / q);
    auto pts = [&](const pline& c) { std::vector<QP> r; for (auto& p : c) r.push_back(out(p, f)); return r; };
    record("off", arr(v, lens(v), side, std::vector<long>{ n, q }), [&] { return js(pts(polyline_offset(mkline(v, f), o, d, cmp()))); });
    if (trim) record("trim", arr(v, lens(v), side, std::vector<long>{ n, q }), [&] { std::vector<Raw> r; for (auto& c : liu_polyline_offset(mkline(v, f), o, d, cmp())) r.push_back(Raw{ js(pts(c)) }); return js(r); });
}
int main(int argc, char** argv) {
    begin(argc, argv);
    const bool th = opts().thorough; std::uint64_t k = 0;
    for (auto& s : script()) { V v; for (std::size_t i = 3; i + 1 < s.size(); i += 2) v.push_back({ s[i], s[i + 1] }); scene(v, (int)s[0], s[1], s[2], frames()[k++ % 6]); }
    Rng r = stream("c28");
    std::vector<Step> dirs; for (Step b : std::vector<Step>{ { 1, 0, 1 }, { 3, 4, 5 }, { 5, 12, 13 } }) for (int i = 0; i < 8; ++i) { Step s = b; if (i & 1) s.x = -s.x; if (i & 2) s.y = -s.y; if (i & 4) std::swap(s.x, s.y); dirs.push_back(s); }
    for (int i = 0, c = th ? 60000 : 5000; i < c; ++i) {
        int n = i % 50 == 7 ? r.in(20, 120) : r.in(1, 9); V v{ rnd_pt(r, -9, 9) }; bool axis = r.chance(40); int big = r.pick(std::vector<int>{ 2, 5, 9 });
        Step last{ 0, 0, 0 }; bool straight = false;
        while (n--) {
            Step s = axis ? dirs[r.next() % 8] : r.pick(dirs);
            if (last.l && r.chance(15)) s = last;
            if (last.l && s.x * last.y == s.y * last.x && s.x * last.x + s.y * last.y < 0) { s.x = -s.x; s.y = -s.y; }
            if (s.l > 1 && last.l && s.x * last.y == s.y * last.x) straight = true;   // one line up to rounding only: near the origin
            last = s; long m = r.in(1, big); v.push_back({ v.back().x + m * s.x, v.back().y + m * s.y });
        }
        bool off = false; for (P p : v) off = off || std::abs(p.x) > 1200 || std::abs(p.y) > 1200; if (off) continue;
        scene(v, r.chance(50) ? 1 : -1, r.in(1, 6), r.pick(std::vector<long>{ 1, 1, 2 }), straight ? Frame{ 1, 0, 0 } : frames()[r.next() % 6], !straight);
    }
    return end();
}
