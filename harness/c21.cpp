// C21: directions, sectors, rotations and angles
#include "gx.hpp"
#include <geometrix/utility/utilities.hpp>
#include <geometrix/utility/point_angle_compare.hpp>
#include <geometrix/utility/vector_angle_compare.hpp>
#include <geometrix/algorithm/is_segment_in_range.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/arithmetic/vector/bisect.hpp>
#include <geometrix/arithmetic/vector/is_antiparallel.hpp>
#include <geometrix/arithmetic/vector/lerp.hpp>
#include <geometrix/arithmetic/vector/slerp.hpp>
using namespace vh; using namespace gx;
struct U { P v; long c; };                                   // |v| = c
static std::vector<U> units() { std::vector<U> r; for (long x = -13; x <= 13; ++x) for (long y = -13; y <= 13; ++y) for (long c : { 1, 5, 13 }) if (x * x + y * y == c * c && (c == 1 || (x && y))) r.push_back({ { x, y }, c }); return r; }
static vec V(P p, double s = 1) { return vec(p.x * s, p.y * s); }
static vec N(const U& u) { return vec(double(u.v.x) / u.c, double(u.v.y) / u.c); }
static P nz(Rng& r, int m) { P p; do p = rnd_pt(r, -m, m); while (p == P{}); return p; }
static std::array<long, 2> fx(const vec& v) { return { fix(v[0], 10000), fix(v[1], 10000) }; }
static bool same(P a, P b) { return a.x * b.y == a.y * b.x && a.x * b.x + a.y * b.y > 0; }
static void order(P ref, P a, P b, double s) { record("order", arr(ref, a, b), [&] { vector_angle_compare<cmp_t> c(V(ref), cmp()); return arr(c(V(a, s), V(b)), c(V(b), V(a, s))); }); }
static void between(P a, P b, P c, bool incl, double s) { record("between", arr(a, b, c, incl), [&] { return js(is_vector_between(V(a), V(b, s), V(c), incl, cmp())); }); }
static void cone(P lo, P hi, P o, P a, P b, const Frame& f) {
    record("cone", arr(lo, hi, o, a, b), [&] { return js(is_segment_in_range_2d(seg(mk(a, f), mk(b, f)), V(lo), V(hi), mk(o, f))); });
    record("conepiece", arr(lo, hi, o, a, b), [&] { pt x[2]; bool in = is_segment_in_range_2d(seg(mk(a, f), mk(b, f)), V(lo), V(hi), mk(o, f), x, cmp()); return in ? arr(in, out(x[0], f), out(x[1], f)) : arr(in); });
}
static void turn(long n, long d) {
    record("turn", arr(n, d), [&] { const double tp = constants::two_pi<double>(), pi = constants::pi<double>(); double t = tp * double(n) / double(d), a = normalize_angle_0_2pi_copy(t), b = normalize_angle_minus_pi_to_pi_copy(t); return arr(a >= 0 && a <= tp, fix(a / tp, 1e6), b >= -pi && b <= pi, fix(b / tp, 1e6)); });
}
int main(int argc, char** argv) {
    begin(argc, argv); scale_ok() = 3; far_ok() = true;
    const bool th = opts().thorough;
    const auto us = units(); std::uint64_t k = 0;
    std::vector<P> dirs; for (long x = -2; x <= 2; ++x) for (long y = -2; y <= 2; ++y) if (x || y) dirs.push_back({ x, y });
    for (P a : dirs) for (P b : dirs) {                       // exhaustive on the grid TLC checks
        for (P c : dirs) { if (!mine(k++)) continue; between(a, b, c, k & 1, 1); if ((k >> 3) % 4 == 0) order(a, b, c, 1); }
        if (!mine(k++)) continue;
        if (dot(P{}, a, b) * dot(P{}, a, b) != dot(P{}, a, a) * dot(P{}, b, b) || dot(P{}, a, b) < 0) record("antiparallel", arr(a, b), [&] { return js(is_antiparallel(V(a), V(b), cmp())); });
        record("direction", arr(P{ b.x - a.x, b.y - a.y }), [&] { pt A(a.x, a.y), B(b.x, b.y); vec v = B - A; if (a == b) return arr(QP{ 0, 0, 1 }, QP{ 0, 0, 1 }, true); double l = std::hypot(v[0], v[1]), t = angle_from_a_to_b(A, B), u = vector_angle(v); return arr(ratp(std::cos(t) * l, std::sin(t) * l), ratp(std::cos(u) * l, std::sin(u) * l), t > -3.1415926536 && t <= 3.1415926536 && u > -3.1415926536 && u <= 3.1415926536); });
    }
    for (P v : dirs) for (int z = 0; z < 4; ++z) { if (!mine(k++)) continue; record("pseudo", arr(v), [&] { vec w(v.x == 0 && (z & 1) ? -0.0 : v.x, v.y == 0 && (z & 2) ? -0.0 : v.y); return js(rat(pseudo_angle(w))); }); }
    for (const U& u : us) for (const U& w : us) {
        if (!mine(k++)) continue;
        record("bisect", arr(u.v, w.v, u.c, w.c), [&] { return js(fx(bisect(V(u.v), V(w.v)))); });
        if (u.v.x * w.v.y != u.v.y * w.v.x) record("bisect", arr(u.v, w.v, u.c, w.c), [&] { return js(fx(bisect_not_antiparallel(V(u.v), V(w.v)))); });
        if (!(u.v.x * w.v.y == u.v.y * w.v.x && !same(u.v, w.v))) record("slerp", arr(u.v, w.v, u.c, w.c), [&] { std::vector<std::array<long, 2>> r; for (int i = 0; i <= 4; ++i) r.push_back(fx(slerp(N(u), N(w), i / 4.0))); return js(r); });
    }
    for (long d : { 1, 2, 3, 4, 6, 8, 12, 360 }) for (long n = -3 * d - 1; n <= 3 * d + 1; n += (d == 360 ? 7 : 1)) { if (mine(k++)) turn(n, d); }
    // cones and short segments, exhaustively around the origin
    { std::vector<P> g; for (long x = -2; x <= 2; ++x) for (long y = -2; y <= 2; ++y) g.push_back({ x, y });
      std::vector<std::array<P, 2>> cs{ { P{ 1, 0 }, P{ 0, 1 } }, { P{ 1, 1 }, P{ -1, 1 } }, { P{ 1, 0 }, P{ -1, 0 } }, { P{ 2, -1 }, P{ -1, 1 } }, { P{ 1, 1 }, P{ 1, 2 } }, { P{ 1, -2 }, P{ -1, 3 } }, { P{ -1, 0 }, P{ 0, -1 } }, { P{ -1, -1 }, P{ 1, 1 } } };
      for (auto& c : cs) for (P a : g) for (P b : g) if (a != b && mine(k++)) cone(c[0], c[1], P{}, a, b, frames()[0]); }
    Rng r = stream("c21");
    for (int i = 0, c = th ? 40000 : 3000; i < c; ++i) {
        P ref = nz(r, 6), a = nz(r, 6), b = r.chance(20) ? P{ -a.x, -a.y } : r.chance(20) ? ref : nz(r, 6), d = r.chance(15) ? P{ -b.x, -b.y } : nz(r, 6); double s = r.chance(70) ? 1 : r.chance(50) ? 0.125 : 64;
        order(ref, a, b, s); between(a, b, d, r.chance(50), s);
        if (i % 4 == 0) {
            Frame f = rnd_frame(r); P o = rnd_pt(r, -3, 3); std::vector<P> v; for (int j = 0, n = r.in(2, 12); j < n; ++j) v.push_back(nz(r, r.chance(50) ? 2 : 5));
            bool pc = r.chance(50); P rf = pc ? P{ 1, 0 } : ref; std::vector<P> in = v;
            record("sorted", arr(rf, in), [&] {
                std::vector<P> o2;
                if (pc) { std::vector<pt> w; for (P p : v) w.push_back(mk(P{ p.x + o.x, p.y + o.y }, f)); std::sort(w.begin(), w.end(), point_angle_compare<cmp_t>(mk(o, f), cmp())); for (auto& p : w) o2.push_back({ std::lround(f.ix(p[0])) - o.x, std::lround(f.iy(p[1])) - o.y }); }
                else { std::vector<vec> w; for (P p : v) w.push_back(V(p)); std::sort(w.begin(), w.end(), vector_angle_compare<cmp_t>(V(rf), cmp())); for (auto& p : w) o2.push_back({ std::lround(p[0]), std::lround(p[1]) }); }
                return js(o2); });
        }
        if (i % 2 == 0) { P lo = nz(r, 4), hi = r.chance(15) ? P{ -lo.x, -lo.y } : nz(r, 4); if (lo.x * hi.y - lo.y * hi.x < 0) std::swap(lo, hi); if (!same(lo, hi)) { P o = rnd_pt(r, -2, 2), x = rnd_pt(r, -5, 5), y; do y = r.chance(15) ? P{ o.x - 2 * (x.x - o.x), o.y - 2 * (x.y - o.y) } : r.chance(20) ? P{ o.x - lo.x, o.y - lo.y } : rnd_pt(r, -5, 5); while (x == y); if (r.chance(15)) x = P{ o.x - hi.x, o.y - hi.y }; if (x != y) cone(lo, hi, o, x, y, frames()[r.in(0, 1)]); } }
        if (i % 4 == 1) {
            const U &u = r.pick(us), &w = r.pick(us); P p = rnd_pt(r, -6, 6), o = rnd_pt(r, -5, 5), t = rnd_pt(r, -4, 4);
            record("rotate", arr(p, o, u.v, w.v, u.c, w.c), [&] { pt q = rotate_point(pt(p.x, p.y), N(u), N(w), pt(o.x, o.y)); return js(ratp(q[0], q[1])); });
            record("rotate", arr(p, P{}, u.v, w.v, u.c, w.c), [&] { vec q = r.in(0, 1) ? rotate_vector(V(p), N(u), N(w)) : rotate_vector(V(p), make_rotation_matrix(N(u), N(w))); return js(ratp(q[0], q[1])); });
            std::vector<P> ps; for (int j = 0, n = r.in(1, 6); j < n; ++j) ps.push_back(rnd_pt(r, -5, 5));
            int how = r.in(0, 2); P tr = how ? t : P{};
            record("rotates", arr(ps, o, u.v, w.v, u.c, w.c, tr), [&] { pgon g; for (P q : ps) g.push_back(pt(q.x, q.y)); pt O(o.x, o.y); pgon h = how == 0 ? rotate_points(g, N(u), N(w), O) : how == 1 ? rotate_translate_points(g, N(u), N(w), V(t), O) : rotate_translate_points(g, make_rotation_matrix(N(u), N(w)), V(t), O); std::vector<QP> x; for (auto& q : h) x.push_back(ratp(q[0], q[1])); return js(x); });
        }
        if (i % 4 == 2) { P u = nz(r, 6), w = nz(r, 6); int d2 = r.in(1, 6), n = r.in(0, d2); P m{ (d2 - n) * u.x + n * w.x, (d2 - n) * u.y + n * w.y }; if (m != P{}) record("lerp", arr(u, w, n, d2), [&] { return js(fx(lerp(V(u), V(w), double(n) / d2))); }); }
        if (i % 4 == 3) { turn(r.in(-3000, 3000), r.in(1, 500)); record("antiparallel", arr(a, b), [&] { return js(is_antiparallel(V(a), V(b), cmp())); }); record("pseudo", arr(a), [&] { return js(rat(pseudo_angle(V(a)))); }); }
    }
    return end();
}
