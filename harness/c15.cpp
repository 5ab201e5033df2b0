// C15: doubly connected edge list
#include "gx.hpp"
#include <geometrix/utility/utilities.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/doubly_connected_edge_list.hpp>
#include <memory>
using namespace vh; using namespace gx;
using dcel = doubly_connected_edge_list<pt, cmp_t>;
using Op = std::array<long, 3>;
struct Map { std::vector<P> at; Frame f; double jit; };
static pt place(const Map& m, long v, int n) { P p = m.at[v]; return pt(m.f.x(p.x) + (n % 3 - 1) * m.jit, m.f.y(p.y) + (n % 2) * m.jit); }
static long which(const Map& m, const pt& p) { for (std::size_t v = 1; v < m.at.size(); ++v) if (std::fabs(m.f.x(m.at[v].x) - p[0]) < 1e-9 && std::fabs(m.f.y(m.at[v].y) - p[1]) < 1e-9) return v; return 0; }
template <class S> static std::vector<std::vector<long>> seqs(const S& ss, const Map& m) { std::vector<std::vector<long>> r; for (auto& s : ss) { std::vector<long> o; for (auto& p : s) o.push_back(which(m, p)); r.push_back(o); } return r; }
static void history(const std::vector<Op>& h, const Map& m, bool ctor) {
    record("dcel", arr(h).substr(1, arr(h).size() - 2), [&] {
        std::vector<Raw> r; std::unique_ptr<dcel> d(new dcel(cmp())); std::size_t i = 0; int n = 0;
        auto show = [&](const dcel& x) { r.push_back(Raw{ arr(seqs(x.get_polylines(), m), seqs(x.get_polygons(), m)) }); };
        for (; i < h.size(); ++i) {
            if (h[i][0] == 0) { pt a = place(m, h[i][1], n++), b = place(m, h[i][2], n++); if (n & 2) d->add_edge(a, b); else d->add_edge(seg(a, b)); }
            if (h[i][0] == 1) d->calculate_point_sequences();
            if (h[i][0] == 2) { std::unique_ptr<dcel> e(new dcel(*d)); d = std::move(e); }
            if (h[i][0] == 3) { std::unique_ptr<dcel> e(new dcel(std::move(*d))); d = std::move(e); }
            if (h[i][0] == 4) { std::unique_ptr<dcel> e(new dcel(cmp())); if (i % 2) { e->add_edge(pt(1, 1), pt(2, 3)); e->calculate_point_sequences(); } *e = *d; d = std::move(e); }
            if (h[i][0] == 5) { std::unique_ptr<dcel> e(new dcel(cmp())); if (i % 2) e->add_edge(pt(1, 1), pt(2, 3)); *e = std::move(*d); d = std::move(e); }
            show(*d);
        }
        return js(r);
    });
}
static void built(const std::vector<Op>& adds, const Map& m) {    // the constructor joins at once
    auto h = adds; h.push_back({ 1, 0, 0 });
    record("built", arr(h).substr(1, arr(h).size() - 2), [&] { std::vector<seg> s; int n = 0; for (auto& o : adds) { pt a = place(m, o[1], n++), b = place(m, o[2], n++); s.push_back(seg(a, b)); } auto d = make_dcel<pt>(s, cmp()); return arr(seqs(d.get_polylines(), m), seqs(d.get_polygons(), m)); });
}
int main(int argc, char** argv) {
    begin(argc, argv);
    const bool th = opts().thorough;
    const std::vector<P> sq{ { 0, 0 }, { 0, 0 }, { 2, 0 }, { 2, 1 }, { -1, 1 }, { 3, 3 } };
    std::uint64_t k = 0;
    for (auto& s : script()) { std::vector<Op> h; for (std::size_t i = 0; i + 2 < s.size(); i += 3) h.push_back({ s[i], s[i + 1], s[i + 2] }); history(h, { sq, frames()[k % 3], (k % 5 == 0) ? 1e-13 : 0 }, false); ++k; }
    Rng r = stream("c15");
    for (int i = 0, c = th ? 15000 : 1500; i < c; ++i) {
        int n = r.in(2, 9); Map m; m.f = frames()[r.in(0, 2)]; m.jit = r.chance(40) ? 1e-13 : 0; m.at.push_back({ 0, 0 });
        std::set<P> seen; while ((int)m.at.size() <= n) { P p = rnd_pt(r, -3, 3); if (seen.insert(p).second) m.at.push_back(p); }
        std::set<long> src, dst; std::vector<Op> h, adds; int len = r.in(3, 16);
        for (int j = 0; j < len; ++j) {
            if (r.chance(65)) { long a = r.in(1, n), b = r.in(1, n); if (a != b && !src.count(a) && !dst.count(b)) { src.insert(a); dst.insert(b); h.push_back({ 0, a, b }); adds.push_back(h.back()); } }
            else if (!h.empty()) h.push_back({ r.in(1, 5), 0, 0 });
        }
        h.push_back({ 1, 0, 0 });
        if (adds.empty()) continue;
        history(h, m, false); built(adds, m);
    }
    for (int i = 0, c = th ? 300 : 24; i < c; ++i) {    // many edges
        int n = r.in(20, 160); Map m; m.f = frames()[r.in(0, 2)]; m.jit = r.chance(40) ? 1e-13 : 0; m.at.push_back({ 0, 0 });
        std::set<P> seen; while ((int)m.at.size() <= n) { P p = rnd_pt(r, -30, 30); if (seen.insert(p).second) m.at.push_back(p); }
        std::vector<long> to(n); for (int j = 0; j < n; ++j) to[j] = j + 1; r.shuffle(to); std::vector<long> from(n); for (int j = 0; j < n; ++j) from[j] = j + 1; r.shuffle(from);
        if (r.chance(40)) { for (int j = 0; j < n; ++j) from[j] = to[(j + 1) % n]; std::vector<int> q(n); for (int j = 0; j < n; ++j) q[j] = j; r.shuffle(q); auto a = from, b = to; for (int j = 0; j < n; ++j) { from[j] = a[q[j]]; to[j] = b[q[j]]; } }   // one ring
        std::vector<Op> h, adds; int drop = r.pick(std::vector<int>{ 0, 3, 30 });
        for (int j = 0; j < n; ++j) { if (from[j] == to[j] || r.chance(drop)) continue; h.push_back({ 0, from[j], to[j] }); adds.push_back(h.back()); if (r.chance(2)) h.push_back({ r.in(1, 5), 0, 0 }); }
        h.push_back({ 1, 0, 0 }); built(adds, m); if (n < 70) history(h, m, false);
    }
    return end();
}
