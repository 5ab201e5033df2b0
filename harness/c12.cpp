// C12: k-d tree
#include "gx.hpp"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/kd_tree.hpp>
#include <geometrix/algorithm/median_partitioning_strategy.hpp>
using namespace vh; using namespace gx;
using I = std::vector<long>;
template <class Pt> struct Mk; template <> struct Mk<pt> { static pt mk(const I& v, const Frame& f) { return pt(f.x(v[0]), f.x(v[1])); } enum { D = 2 }; };
template <> struct Mk<pt3> { static pt3 mk(const I& v, const Frame& f) { return pt3(f.x(v[0]), f.x(v[1]), f.x(v[2])); } enum { D = 3 }; };
template <class Pt> I back(const Pt& p, const Frame& f) { I r; for (int d = 0; d < Mk<Pt>::D; ++d) r.push_back(fix(f.ix(p[d]), 1)); return r; }
template <class Pt> static void range(const std::vector<I>& ps, const std::vector<std::pair<I, I>>& rs, const Frame& f) {
    record("range", arr(ps, rs), [&] {
        std::vector<Pt> v; for (auto& p : ps) v.push_back(Mk<Pt>::mk(p, f));
        kd_tree<Pt> t(v, cmp(), median_partitioning_strategy()); std::vector<std::vector<I>> out;
        for (auto& q : rs) { std::vector<I> o; axis_aligned_bounding_box<Pt> b(Mk<Pt>::mk(q.first, f), Mk<Pt>::mk(q.second, f)); t.search(b, [&](const Pt& p) { o.push_back(back(p, f)); }, cmp()); out.push_back(o); }
        return js(out);
    });
}
template <class Pt, std::size_t D> static void median(std::vector<I> ps, const Frame& f) {
    record("median", arr(ps, (long)D + 1), [&] { std::vector<Pt> v; for (auto& p : ps) v.push_back(Mk<Pt>::mk(p, f)); std::size_t m = median_partitioning_strategy().template partition<D>(v, cmp()); std::vector<I> o; for (auto& p : v) o.push_back(back(p, f)); return arr(o, m); });
}
static void order(const I& o, const I& p, const I& q, const Frame& f) {
    record("order", arr(o, p, q), [&] { distance_compare<pt, cmp_t> d(Mk<pt>::mk(o, f), cmp()); dimension_compare<0, cmp_t> c0(cmp()); dimension_compare<1, cmp_t> c1(cmp()); pt a = Mk<pt>::mk(p, f), b = Mk<pt>::mk(q, f); return arr(d(a, b), std::vector<bool>{ (bool)c0(a, b), (bool)c1(a, b) }); });
}
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 3; far_ok() = true;
    const bool th = opts().thorough;
    // every multiset of three points of a 3x3 grid (as sequences), every range
    std::uint64_t k = 0; std::vector<std::pair<I, I>> all;
    for (long a = 0; a < 3; ++a) for (long b = a; b < 3; ++b) for (long c = 0; c < 3; ++c) for (long d = c; d < 3; ++d) all.push_back({ { a, c }, { b, d } });
    for (long i = 0; i < 729; ++i) if (mine(k++)) { std::vector<I> p; long z = i; for (int j = 0; j < 3; ++j) { p.push_back({ z % 3, z / 3 % 3 }); z /= 9; } range<pt>(p, all, frames()[i % 4]); if (i < 81) range<pt>({ p[0], p[1] }, all, frames()[0]); if (i < 9) range<pt>({ p[0] }, all, frames()[0]); }
    Rng r = stream("c12");
    for (int i = 0, c = th ? 12000 : 1200; i < c; ++i) {
        int D = r.in(2, 3), n = r.in(1, r.chance(4) ? 400 : r.chance(20) ? 60 : 14), R = r.pick(std::vector<int>{ 2, 5, 30, 3000 });
        std::vector<I> ps; for (int j = 0; j < n; ++j) { if (j && r.chance(15)) ps.push_back(ps[r.next() % j]); else { I p; for (int d = 0; d < D; ++d) p.push_back(r.in(-R, R)); if (r.chance(20)) p[r.next() % D] = 0; ps.push_back(p); } }
        std::vector<std::pair<I, I>> rs; for (int q = 0; q < 6; ++q) { I lo, hi; for (int d = 0; d < D; ++d) { long a = r.in(-R - 1, R + 1), b = r.in(-R - 1, R + 1); if (r.chance(15)) a = b; lo.push_back(std::min(a, b)); hi.push_back(std::max(a, b)); } rs.push_back({ lo, hi }); }
        Frame f = rnd_frame(r);
        if (D == 2) range<pt>(ps, rs, f); else range<pt3>(ps, rs, f);
        if (n > 1) { if (D == 2) { if (r.chance(50)) median<pt, 0>(ps, f); else median<pt, 1>(ps, f); } else { int d = r.in(0, 2); if (d == 0) median<pt3, 0>(ps, f); if (d == 1) median<pt3, 1>(ps, f); if (d == 2) median<pt3, 2>(ps, f); } }
        I o{ r.in(-R, R), r.in(-R, R) }, p{ r.in(-R, R), r.in(-R, R) }, q{ r.in(-R, R), r.in(-R, R) }; if (r.chance(30)) { q = { 2 * o[0] - p[0], p[1] }; }
        order(o, p, q, f);
    }
    return end();
}
