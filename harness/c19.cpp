// C19: triangle meshes
#include "gx.hpp"
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/mesh_2d.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/eberly_triangle_aabb_intersection.hpp>
#include <geometrix/algorithm/visible_vertices_mesh_search.hpp>
using namespace vh; using namespace gx;
using V = std::vector<P>; using T3 = std::array<int, 3>; using Ts = std::vector<T3>;
using mesh_t = mesh_2d<double>;
using sparse_t = mesh_2d<double, mesh_traits<triangle_grid_cache<double, sparse_grid_type_generator>>>;
template <class M> M make(const V& v, const Ts& t, const Frame& f) {
    std::vector<pt> p; for (P q : v) p.push_back(mk(q, f));
    std::vector<std::size_t> ix; for (auto& a : t) for (int i : a) ix.push_back(i);
    return M(p, ix, cmp());
}
static void mesh(const V& v, const Ts& t, const V& q, const Frame& f) {
    record("mesh", arr(v, t, q), [&] {
        mesh_t m = make<mesh_t>(v, t, f); sparse_t s = make<sparse_t>(v, t, f); mesh_t cp(m);
        std::vector<Raw> ix, ad, co, sides; std::vector<long> fd, fs; auto& A = cp.get_adjacency_matrix();
        auto idx = [](std::size_t i) { return i == (std::numeric_limits<std::size_t>::max)() ? -1L : (long)i; };
        for (std::size_t i = 0; i < m.get_number_triangles(); ++i) {
            auto& a = m.get_triangle_indices(i); ix.push_back(Raw{ arr(a[0], a[1], a[2]) });
            ad.push_back(Raw{ arr(idx(A[i][0]), idx(A[i][1]), idx(A[i][2])) });
            auto& c = m.get_triangle_vertices(i); std::vector<Raw> w; for (int k = 0; k < 3; ++k) { QP p = out(c[k], f); w.push_back(Raw{ arr(p.x, p.y) }); } co.push_back(Raw{ js(w) });
            for (int k = 0; k < 3; ++k) if (idx(A[i][k]) >= 0) sides.push_back(Raw{ arr((long)i, idx(A[i][k]), idx(get_triangle_adjacent_side(a, m.get_triangle_indices(A[i][k])))) });
        }
        for (P p : q) { auto x = cp.find_triangle(mk(p, f), cmp()); fd.push_back(x ? (long)*x : -1); auto y = s.find_triangle(mk(p, f), cmp()); fs.push_back(y ? (long)*y : -1); }
        return arr(ix, ad, co, fd, fs, sides);
    });
}
struct Smp { std::array<long, 2> t, s, u; };
static void sample(const V& v, const Ts& t, const std::vector<Smp>& q, const Frame& f) {
    std::vector<Raw> in; for (auto& z : q) in.push_back(Raw{ arr(z.t, z.s, z.u) });
    record("sample", arr(v, t, in), [&] {
        mesh_t m = make<mesh_t>(v, t, f); std::vector<QP> o;
        for (auto& z : q) { double s = double(z.s[0]) / z.s[1]; o.push_back(out(m.get_random_position(double(z.t[0]) / z.t[1], s * s, double(z.u[0]) / z.u[1]), f)); }
        return js(o);
    });
}
struct Item { std::size_t from, to; std::size_t get_triangle_index() const { return to; } };
struct Vis {
    typedef Item edge_item;
    std::size_t start; int stop; std::set<std::size_t> seen; std::vector<std::array<long, 2>> log;
    Item get_start() { seen.insert(start); return Item{ (std::numeric_limits<std::size_t>::max)(), start }; }
    bool visit(const Item& i) { log.push_back({ i.from == (std::numeric_limits<std::size_t>::max)() ? -1L : (long)i.from, (long)i.to }); return !(stop && (int)log.size() >= stop); }
    boost::optional<Item> prepare_adjacent_traversal(std::size_t n, const Item& i) { if (!seen.insert(n).second) return boost::none; return Item{ i.to, n }; }
};
static void search(const V& v, const Ts& t, int start, int stop, const Frame& f) {
    record("search", arr(v, t, start, stop), [&] { mesh_t m = make<mesh_t>(v, t, f); Vis w{ (std::size_t)start, stop }; m.search(w); return js(w.log); });
}
static void see(const V& v, const Ts& t, P o, const Frame& f) {
    record("see", arr(v, t, o), [&] {
        mesh_t m = make<mesh_t>(v, t, f); pt z = mk(o, f); auto st = m.find_triangle(z, cmp());
        if (!st) return std::string("[-1]");
        visible_vertices_mesh_search<visible_vertices_mesh_search_traits<double, mesh_t, cmp_t>> s(z, *st, m); m.search(s);
        return js(s.get_vertices());
    });
}
// ---- meshes: triangulated random polygons, triangulated grids of squares
static bool in_tri(P a, P b, P c, P p) { return cross(a, b, p) >= 0 && cross(b, c, p) >= 0 && cross(c, a, p) >= 0; }
static bool inside(P a, P b, P c, P p) { return cross(a, b, p) > 0 && cross(b, c, p) > 0 && cross(c, a, p) > 0; }
static Ts ears(const V& v) {
    Ts r; std::vector<int> ix; for (std::size_t i = 0; i < v.size(); ++i) ix.push_back(i); if (area2(v) < 0) std::reverse(ix.begin(), ix.end());
    while (ix.size() > 3) {
        bool cut = false; std::size_t n = ix.size();
        for (std::size_t i = 0; i < n && !cut; ++i) {
            int a = ix[(i + n - 1) % n], b = ix[i], c = ix[(i + 1) % n];
            if (cross(v[a], v[b], v[c]) <= 0) continue;
            bool ok = true; for (int j : ix) if (j != a && j != b && j != c && in_tri(v[a], v[b], v[c], v[j])) ok = false;
            if (!ok) continue;
            r.push_back({ a, b, c }); ix.erase(ix.begin() + i); cut = true;
        }
        if (!cut) return {};
    }
    if (cross(v[ix[0]], v[ix[1]], v[ix[2]]) <= 0) return {};
    r.push_back({ ix[0], ix[1], ix[2] }); return r;
}
static void grid(Rng& g, V& v, Ts& t, int s, int W = 4, int H = 3) {
    int w = g.in(1, W), h = g.in(1, H); v.clear(); t.clear();
    bool jig = g.chance(40);
    for (int y = 0; y <= h; ++y) for (int x = 0; x <= w; ++x) v.push_back({ s * x + (jig ? g.in(0, s / 3) : 0), s * y + (jig ? g.in(0, s / 3) : 0) });
    auto id = [&](int x, int y) { return y * (w + 1) + x; };
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
        if (g.chance(20)) continue;
        if (g.chance(50)) { t.push_back({ id(x, y), id(x + 1, y), id(x + 1, y + 1) }); if (g.chance(90)) t.push_back({ id(x, y), id(x + 1, y + 1), id(x, y + 1) }); }
        else { t.push_back({ id(x, y), id(x + 1, y), id(x, y + 1) }); if (g.chance(90)) t.push_back({ id(x + 1, y), id(x + 1, y + 1), id(x, y + 1) }); }
    }
}
static bool draw(Rng& g, V& v, Ts& t, int s, bool big = false) {
    if (big) grid(g, v, t, s, 16, 12);
    else if (g.chance(50)) grid(g, v, t, s);
    else { v = rnd_simple(g, g.in(3, 9), 0, 5, false); for (P& p : v) { p.x *= s / 2; p.y *= s / 2; } t = ears(v); }
    if (t.empty()) return false;
    // renumber the vertices, shuffle the triangles, turn and flip some
    std::vector<int> q(v.size()); for (std::size_t i = 0; i < q.size(); ++i) q[i] = i; g.shuffle(q); V u(v.size()); for (std::size_t i = 0; i < q.size(); ++i) u[q[i]] = v[i]; v = u;
    for (auto& a : t) { for (int& i : a) i = q[i]; std::rotate(a.begin(), a.begin() + g.in(0, 2), a.end()); if (g.chance(30)) std::swap(a[1], a[2]); }
    g.shuffle(t); return true;
}
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 1; far_ok() = true;
    for (auto& s : script()) { // <<w, h, square states>>: the grids the model explored
        int w = s[0], h = s[1]; V v; Ts t; auto id = [&](int x, int y) { return y * (w + 1) + x; };
        for (int y = 0; y <= h; ++y) for (int x = 0; x <= w; ++x) v.push_back({ 4 * x, 4 * y });
        for (std::size_t k = 2; k < s.size(); k += 3) { int x = s[k], y = s[k + 1], c = s[k + 2]; if (!c) continue;
            if (c == 1) { t.push_back({ id(x, y), id(x + 1, y), id(x + 1, y + 1) }); t.push_back({ id(x, y), id(x + 1, y + 1), id(x, y + 1) }); }
            else if (c == 2) { t.push_back({ id(x, y), id(x + 1, y), id(x, y + 1) }); t.push_back({ id(x, y + 1), id(x + 1, y), id(x + 1, y + 1) }); }
            else t.push_back({ id(x, y), id(x + 1, y), id(x, y + 1) }); }
        if (t.empty()) continue;
        mesh(v, t, { { 2, 1 }, { 5, 3 }, { 3, 6 } }, frames()[0]); search(v, t, 0, 0, frames()[0]); see(v, t, { (v[t[0][0]].x + v[t[0][1]].x + v[t[0][2]].x) / 3, (v[t[0][0]].y + v[t[0][1]].y + v[t[0][2]].y) / 3 }, frames()[0]);
    }
    int N = opts().thorough ? 1500 : 150;
    { Rng g = stream("mesh"); for (int i = 0; i < N; ++i) { V v, q; Ts t; if (!draw(g, v, t, 4)) continue; if (g.chance(20)) t.insert(t.begin() + g.in(0, t.size()), T3{ 0, 1, g.in(0, 1) }); int n = 10; while (n--) { P p = g.chance(60) ? rnd_pt(g, -1, 17) : g.pick(v); if (g.chance(30)) { P b = g.pick(v); p = { (p.x + b.x) / 2, (p.y + b.y) / 2 }; } q.push_back(p); } mesh(v, t, q, rnd_frame(g)); } }
    { Rng g = stream("sample"); for (int i = 0; i < N; ++i) { V v; Ts t; if (!draw(g, v, t, 2)) continue; long A = 0; for (auto& a : t) A += std::labs(cross(v[a[0]], v[a[1]], v[a[2]])); std::vector<Smp> q; int n = 8; while (n--) { Smp z; int d = g.in(2, 8), e = g.in(2, 8); z.t = { 2 * g.in(0, A - 1) + 1, 2 * A }; if (g.chance(15)) z.t = { 1, 1 }; else if (g.chance(5)) z.t = { 0, 1 }; z.s = { g.in(0, d), d }; z.u = { g.in(0, e), e }; q.push_back(z); } sample(v, t, q, rnd_frame(g)); } }
    { Rng g = stream("search"); for (int i = 0; i < N; ++i) { V v; Ts t; if (!draw(g, v, t, 4)) continue; search(v, t, g.in(0, t.size() - 1), g.chance(70) ? 0 : g.in(1, t.size()), rnd_frame(g)); } }
    { Rng g = stream("see"); for (int i = 0; i < N * 2; ++i) { V v; Ts t; if (!draw(g, v, t, g.chance(50) ? 4 : 6)) continue;
        for (int k = 0; k < 200; ++k) { auto a = g.pick(t); P o = rnd_pt(g, 0, 20); if (inside(v[a[0]], v[a[1]], v[a[2]], o) || inside(v[a[0]], v[a[2]], v[a[1]], o)) { see(v, t, o, rnd_frame(g)); break; } } } }
    { Rng g = stream("many"); for (int i = 0; i < (opts().thorough ? 60 : 4); ++i) { V v, q; Ts t; if (!draw(g, v, t, 4, true)) continue; Frame f = rnd_frame(g); for (int n = 0; n < 12; ++n) q.push_back(rnd_pt(g, -1, 50)); mesh(v, t, q, f); search(v, t, g.in(0, t.size() - 1), g.chance(70) ? 0 : g.in(1, t.size()), f);
        for (int k = 0; k < 200; ++k) { auto a = g.pick(t); P o{ (v[a[0]].x + v[a[1]].x + v[a[2]].x) / 3, (v[a[0]].y + v[a[1]].y + v[a[2]].y) / 3 }; if (inside(v[a[0]], v[a[1]], v[a[2]], o) || inside(v[a[0]], v[a[2]], v[a[1]], o)) { see(v, t, o, f); break; } } } }
    return end();
}
