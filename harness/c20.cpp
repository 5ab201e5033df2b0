// C20: sets of collinear segments under union and difference
#include "gx.hpp"
#include <geometrix/utility/utilities.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <set>
using namespace vh; using namespace gx;
using Op = std::array<long, 3>;
using icmp = segment_interval_compare<cmp_t>;
using sset = std::set<seg, icmp>;
struct Line { P o, d; Frame f; double jit; };
static pt at(const Line& l, long k, int n) { double j = (n % 3 - 1) * l.jit; return pt(l.f.x(l.o.x + k * l.d.x) + j * l.d.x, l.f.y(l.o.y + k * l.d.y) + j * l.d.y); }
static long pos(const Line& l, const pt& p) {
    double t = l.d.x ? (l.f.ix(p[0]) - l.o.x) / l.d.x : (l.f.iy(p[1]) - l.o.y) / l.d.y; double k = std::floor(t + 0.5);
    return std::fabs(l.f.x(l.o.x + k * l.d.x) - p[0]) < 1e-9 && std::fabs(l.f.y(l.o.y + k * l.d.y) - p[1]) < 1e-9 ? (long)k : -99;
}
static std::vector<std::array<long, 2>> pieces(const sset& s, const Line& l) { std::vector<std::array<long, 2>> r; for (auto& e : s) r.push_back({ pos(l, e.get_start()), pos(l, e.get_end()) }); return r; }
static bool up(const Line& l) { return l.d.x > 0 || (l.d.x == 0 && l.d.y > 0); }
static std::string ops(const std::vector<Op>& h) { return arr(h).substr(1, arr(h).size() - 2); }
static void apply(sset& s, const Op& o, const Line& l, int& n) { pt a = at(l, o[1], n++), b = o[1] == o[2] ? a : at(l, o[2], n++); if (o[0] == 1) collinear_segment_union(s, seg(a, b), cmp()); else collinear_segment_difference(s, seg(a, b), cmp()); }
static void history(const std::vector<Op>& h, const Line& l) {
    record("cover", ops(h), [&] { sset s{ icmp(cmp()) }; std::vector<Raw> r; int n = 0; for (auto& o : h) { apply(s, o, l, n); auto v = pieces(s, l); if (!up(l)) std::reverse(v.begin(), v.end()); r.push_back(Raw{ js(v) }); } return js(r); });
}
static void touch(const std::vector<Op>& h, long a, long b, const Line& l) {
    record("touch", arr(Raw{ ops(h) }, std::array<long, 2>{ a, b }), [&] { sset s{ icmp(cmp()) }; int n = 0; for (auto& o : h) apply(s, o, l, n); auto e = s.equal_range(seg(at(l, a, 0), at(l, b, 1))); return js(pieces(sset(e.first, e.second, icmp(cmp())), l)); });
}
static Line rnd_line(Rng& r) { Line l; do l.d = rnd_pt(r, -3, 3); while (l.d == P{}); l.o = rnd_pt(r, -4, 4); l.f = rnd_frame(r); l.jit = l.f.s <= 2 && r.chance(50) ? 2e-14 : 0; return l; }    // jitter times length stays inside the collinearity tolerance
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 3; far_ok() = true;
    const bool th = opts().thorough;
    const std::vector<P> dirs{ { 1, 0 }, { 0, 1 }, { 1, 1 }, { 1, -2 }, { -1, 0 }, { 0, -1 }, { -2, -1 }, { -1, 3 } };
    std::uint64_t k = 0;
    for (auto& s : script()) { std::vector<Op> h; for (std::size_t i = 0; i + 2 < s.size(); i += 3) h.push_back({ s[i], s[i + 1], s[i + 2] }); history(h, { { 1, -1 }, dirs[k % dirs.size()], frames()[k % 3], (k % 5 == 0) ? 2e-14 : 0 }); ++k; }
    Rng r = stream("c20");
    for (int i = 0, c = th ? 12000 : 1200; i < c; ++i) {
        int N = r.in(4, 12), len = r.in(3, 14); Line l = rnd_line(r); std::vector<Op> h;
        for (int j = 0; j < len; ++j) { long a = r.in(0, N), b = r.chance(50) ? std::min(N, (int)a + r.in(1, 3)) : r.in(0, N); if (r.chance(50)) std::swap(a, b); bool u = r.chance(60); if (u && a == b) continue; h.push_back({ u ? 1 : 2, a, b }); }
        if (h.empty()) continue;
        history(h, l);
        long a = r.in(0, N), b; do b = r.in(0, N); while (a == b);
        touch(h, a, b, l);
        long q[4]; do for (auto& x : q) x = r.in(0, 6); while (q[0] == q[1] || q[2] == q[3]);
        record("precedes", arr(q[0], q[1], q[2], q[3]), [&] { seg s1(at(l, q[0], 0), at(l, q[1], 1)), s2(at(l, q[2], 2), at(l, q[3], 3)); icmp c(cmp()); return js(up(l) ? c(s1, s2) : c(s2, s1)); });
    }
    for (int i = 0, c = th ? 400 : 40; i < c; ++i) {    // many pieces
        int N = r.in(40, 200), len = r.in(20, 90); Line l = rnd_line(r); std::vector<Op> h; l.jit = 0;    // (jitter times such lengths would exceed the collinearity tolerance)
        for (int j = 0; j < len; ++j) { long a = r.in(0, N), b = r.chance(85) ? std::min(N, (int)a + r.in(1, 4)) : r.in(0, N); if (r.chance(50)) std::swap(a, b); bool u = r.chance(75); if (u && a == b) continue; h.push_back({ u ? 1 : 2, a, b }); }
        if (!h.empty()) history(h, l);
    }
    return end();
}
