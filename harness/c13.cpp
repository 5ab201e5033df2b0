// C13: segment BSP tree
#include "gx.hpp"
#include <geometrix/utility/utilities.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/node_bsp_tree_2d.hpp>
using namespace vh; using namespace gx;
using S = std::pair<P, P>; using V = std::vector<P>;
using tree = node_bsp_tree_2d<seg>;
static seg mks(S s, const Frame& f) { return seg(mk(s.first, f), mk(s.second, f)); }
static std::vector<seg> mks(const std::vector<S>& v, const Frame& f) { std::vector<seg> r; for (auto s : v) r.push_back(mks(s, f)); return r; }
static std::string paint(const tree& t, const std::vector<P>& vs, const Frame& f) {
    std::vector<std::vector<std::pair<QP, QP>>> r;
    for (P v : vs) { std::vector<std::pair<QP, QP>> o; t.painters_traversal(mk(v, f), [&](const seg& s) { o.push_back({ out(s.get_start(), f), out(s.get_end(), f) }); }, cmp()); r.push_back(o); }
    return js(r);
}
// a selection policy may name any of the segments it is shown
struct Any { using output_geometry_type = seg; std::uint64_t salt; template <class R> seg operator()(const R& r) const { std::uint64_t h = salt; for (auto& s : r) h = h * 6364136223846793005ull + (std::uint64_t)(s.get_start()[0] * 64 + s.get_end()[1] * 4096) + 1442695040888963407ull; auto it = r.begin(); std::advance(it, (h >> 33) % r.size()); return *it; } };
struct Coin { using result_type = std::uint32_t; std::shared_ptr<std::uint64_t> s; static constexpr result_type min() { return 0; } static constexpr result_type max() { return 0xffffffffu; } result_type operator()() const { *s = *s * 6364136223846793005ull + 1442695040888963407ull; return *s >> 32; } };
template <class F> static void sel(int how, F&& f) {
    if (how >= 2 && how % 2 == 0) f(Any{ (std::uint64_t)how });
    else if (how >= 2) f(partition_policies::random_segment_selector_policy<seg, Coin>(Coin{ std::make_shared<std::uint64_t>(how) }));
    else if (how == 0) f(partition_policies::first_segment_selector_policy<seg>());
    else f(partition_policies::scored_segment_selector_policy<seg, cmp_t>(cmp()));
}
// batches[0] builds the tree, the others are inserted one after the other
static void paintc(const std::vector<std::vector<S>>& batches, const std::vector<P>& vs, int how, const Frame& f) {
    std::vector<S> all; for (auto& b : batches) all.insert(all.end(), b.begin(), b.end());
    record("paint", arr(all, vs), [&] {
        std::string o;
        sel(how, [&](const auto& pol) { tree t(mks(batches[0], f), pol, cmp()); for (std::size_t i = 1; i < batches.size(); ++i) t.insert(mks(batches[i], f), pol, cmp()); o = paint(t, vs, f); });
        return o;
    });
}
static void locate(const V& poly, const std::vector<P>& ps, std::uint64_t salt, const Frame& f) {
    record("locate", arr(poly, ps), [&] {
        std::vector<std::vector<int>> r; auto pg = mkpoly(poly, f); auto sg = polygon_as_segment_range<seg>(pg);
        auto loc = [&](const tree& t) { std::vector<int> o; for (P p : ps) o.push_back((int)t.locate_point(mk(p, f), cmp())); r.push_back(o); };
        for (int how : { 0, 1, 2 + (int)(salt % 100), 3 + (int)(salt % 50) * 2 }) sel(how, [&](const auto& pol) { tree t(sg, pol, cmp()); loc(t); });
        Rng g(salt); g.shuffle(sg);
        sel(0, [&](const auto& pol) { tree t(sg, pol, cmp()); loc(t); });
        // the same boundary inserted piece by piece
        sel(0, [&](const auto& pol) { tree t(std::vector<seg>{ sg[0] }, pol, cmp()); for (std::size_t i = 1; i < sg.size(); ++i) t.insert(std::vector<seg>{ sg[i] }, pol, cmp()); loc(t); });
        return js(r);
    });
}
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 1;
    const bool th = opts().thorough;
    // histories from the specification: K segments of a grid, inserted one at a time
    for (auto& h : script()) { std::vector<std::vector<S>> b; for (std::size_t i = 0; i + 3 < h.size(); i += 4) b.push_back({ { { h[i], h[i + 1] }, { h[i + 2], h[i + 3] } } }); paintc(b, { { -1, 0 }, { 1, 1 }, { 4, -5 } }, 0, frames()[0]); }
    // all quadrilaterals of a 3x3 grid (counter-clockwise), every grid point
    std::uint64_t k = 0;
    std::vector<P> grid; for (long x = -1; x < 4; ++x) for (long y = -1; y < 4; ++y) grid.push_back({ x, y });
    for (long n = 3; n <= (th ? 6 : 5); ++n) {
        std::vector<int> ix(n, 0);
        for (;;) {
            V v; for (int i : ix) v.push_back({ i % 3, i / 3 });
            if (simple(v) && area2(v) > 0 && mine(k++)) if (th || n < 4 || k % (n < 5 ? 4 : 29) == 0) locate(v, grid, k, frames()[k % 4]);
            int j = 0; while (j < n && ++ix[j] == 9) ix[j++] = 0; if (j == n) break;
        }
    }
    Rng r = stream("c13");
    for (int i = 0, c = th ? 5000 : 300; i < c; ++i) {
        int R = r.pick(std::vector<int>{ 2, 3, 5 }), n = r.in(1, 7);
        std::vector<std::vector<S>> b(1); std::vector<S> all;
        for (int j = 0; j < n; ++j) {
            S s{ rnd_pt(r, -R, R), rnd_pt(r, -R, R) };
            if (j && r.chance(25)) { S t = all[r.next() % j]; int w = r.in(0, 3); if (w == 0) s = t; if (w == 1) s = { t.second, t.first }; if (w == 2) s.first = t.second; if (w == 3) { s.first = t.second; s.second = { 2 * t.second.x - t.first.x, 2 * t.second.y - t.first.y }; } }
            if (s.first == s.second) { s.second.x += 1; }
            all.push_back(s); if (!b.back().empty() && r.chance(25)) b.push_back({}); b.back().push_back(s);
        }
        Frame f = rnd_frame(r);
        std::vector<P> vs; for (int j = 0; j < 3; ++j) vs.push_back(rnd_pt(r, -R - 2, R + 2));
        paintc(b, vs, r.in(0, 5), f);
    }
    for (int i = 0, c = th ? 5000 : 350; i < c; ++i) {
        int R = r.pick(std::vector<int>{ 3, 6, 12 });
        V v = r.chance(15) ? rnd_comb(r, r.in(2, 4), 5) : rnd_simple(r, r.in(3, 11), -R, R); if (area2(v) < 0) std::reverse(v.begin(), v.end());
        std::vector<P> ps; for (int j = 0; j < 14; ++j) { P p = rnd_pt(r, -R - 1, R + 1); if (r.chance(25)) p = r.pick(v); if (r.chance(25)) p.y = r.pick(v).y; if (r.chance(15)) { P a = r.pick(v), q = r.pick(v); p = { 2 * a.x - q.x, 2 * a.y - q.y }; } ps.push_back(p); }
        locate(v, ps, r.next(), rnd_frame(r));
        if (r.chance(40)) { std::vector<S> e; for (std::size_t j = 0; j < v.size(); ++j) e.push_back({ v[j], v[(j + 1) % v.size()] }); if (R < 12) paintc({ e }, { ps[0], ps[1], ps[2] }, r.in(0, 5), rnd_frame(r)); }
    }
    for (int i = 0, c = th ? 600 : 48; i < c; ++i) {    // many segments on few lines
        int lines = r.in(1, 3); std::vector<S> all; std::vector<std::vector<S>> b(1);
        for (int l = 0; l < lines; ++l) {
            P o = rnd_pt(r, -5, 5), d = rnd_pt(r, -2, 2); if (!d.x && !d.y) d.x = 1;
            for (int j = r.in(1, 20); j-- > 0;) { long t = r.in(-6, 6), w = r.in(1, 3); S s{ { o.x + t * d.x, o.y + t * d.y }, { o.x + (t + w) * d.x, o.y + (t + w) * d.y } }; if (r.chance(50)) std::swap(s.first, s.second); all.push_back(s); }
        }
        r.shuffle(all); for (auto& s : all) { if (!b.back().empty() && r.chance(8)) b.push_back({}); b.back().push_back(s); }
        paintc(b, { rnd_pt(r, -8, 8), rnd_pt(r, -8, 8) }, r.in(0, 5), rnd_frame(r));
    }
    for (int i = 0, c = th ? 400 : 32; i < c; ++i) {    // boundaries with many edges on one line: a comb whose teeth end at the same height
        int k = r.in(5, 14); long h = r.in(2, 6), e = r.in(1, h - 1); V v{ { 0, 0 }, { 4 * k, 0 } }; for (int j = k; j-- > 0;) { v.push_back({ 4 * j + 4, h }); v.push_back({ 4 * j + 2, h }); v.push_back({ 4 * j + 2, e }); v.push_back({ 4 * j, e }); } v.pop_back(); v.push_back({ 0, e });
        int m = r.in(0, 7); for (auto& p : v) { if (m & 1) p.x = -p.x; if (m & 2) p.y = -p.y; if (m & 4) std::swap(p.x, p.y); }
        if (!simple(v)) continue; if (area2(v) < 0) std::reverse(v.begin(), v.end());
        V ps; for (int j = 0; j < 16; ++j) { P p = r.pick(v); int w = r.in(0, 3); if (w == 1) p.x += r.in(-2, 2); if (w == 2) p.y += r.in(-2, 2); if (w == 3) { p.x += r.in(-2, 2); p.y += r.in(-2, 2); } ps.push_back(p); }
        locate(v, ps, r.next(), rnd_frame(r));
    }
    for (int i = 0, c = th ? 300 : 24; i < c; ++i) {    // many walls
        V v = r.chance(30) ? rnd_comb(r, r.in(6, 24), 7) : rnd_star(r, r.pick(std::vector<int>{ 20, 40, 80 }), r.in(8, 40)); if (area2(v) < 0) std::reverse(v.begin(), v.end());
        std::vector<P> ps; for (int j = 0; j < 20; ++j) { P p = rnd_pt(r, -40, 40); if (r.chance(40)) p = r.pick(v); if (r.chance(25)) p.y = r.pick(v).y; if (r.chance(25)) p.x = r.pick(v).x; ps.push_back(p); }
        locate(v, ps, r.next(), rnd_frame(r));
    }
    return end();
}
