// C30: polygons, polylines, polygons with holes and simple shapes hold what they are given
#include "gx.hpp"
#include <array>
#include <deque>
#include <memory>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/rectangle.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/primitive/capsule.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/deque_point_sequence.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/polygon_with_holes_as_segment_range.hpp>
#include <geometrix/algebra/algebra.hpp>
using namespace vh; using namespace gx;
using Ids = std::vector<long>;
struct Op { long k, a, b, c; };
static const std::vector<Ids> lists{ { 1, 2, 3 }, { 4 }, {}, { 2, 2, 5, 1 }, { 5, 4, 3, 2, 1, 5 } };
// points by name
static pt at(long i, const pt*) { return pt(i * 1.25, -7.5 * i + 3); }
static pt3 at(long i, const pt3*) { return pt3(i * 1.25, -7.5 * i + 3, 0.5 * i * i); }
template <class T> static T at(long i) { return at(i, (const T*)nullptr); }
template <class T> static long name(const T& p) { for (long i = 1; i <= 9; ++i) { T q = at<T>(i); bool same = true; for (std::size_t k = 0; k < dimension_of<T>::value; ++k) same = same && q[k] == p[k]; if (same) return i; } return 0; }
template <class T> static std::vector<T> pts(const Ids& v) { std::vector<T> r; for (long i : v) r.push_back(at<T>(i)); return r; }
template <class S> static std::string view(const S& c) {
    using A = point_sequence_traits<S>; Ids idx, it, rev, ends; S m(c);
    for (std::size_t i = 0; i < A::size(c); ++i) idx.push_back(name(get_vertex(c, i)) == name(A::get_point(c, i)) && name(A::get_point(m, i)) == name(A::get_point(c, i)) ? name(A::get_point(c, i)) : -1);
    for (auto i = A::begin(c); i != A::end(c); ++i) it.push_back(name(*i));
    for (auto i = A::rbegin(c); i != A::rend(c); ++i) rev.push_back(name(*i));
    Ids it2, rev2; for (auto i = A::begin(m); i != A::end(m); ++i) it2.push_back(name(*i)); for (auto i = A::rbegin(m); i != A::rend(m); ++i) rev2.push_back(name(*i));
    if (it2 != it) it.push_back(-2); if (rev2 != rev) rev.push_back(-2);
    if (!c.empty()) { ends = { name(A::front(c)), name(A::back(c)) }; if (name(A::front(m)) != ends[0] || name(A::back(m)) != ends[1]) ends.push_back(-2); }
    return arr(idx, it, rev, ends, number_vertices(c), A::empty(c));
}
template <class T> struct Machine {
    using G = polygon<T>; using L = polyline<T>; using W = polygon_with_holes<T>; using V = std::vector<T>;
    std::unique_ptr<G> g[2]; std::unique_ptr<L> l[2]; std::unique_ptr<W> w[2];
    template <class X> static void set(std::unique_ptr<X>& p, X x) { p.reset(new X(x)); }
    Machine() {
        g[0].reset(new G(pts<T>({ 1, 2, 3 }))); g[1].reset(new G(pts<T>({ 3, 4 }))); l[0].reset(new L(pts<T>({ 1 }))); l[1].reset(new L(pts<T>({ 2, 3, 4 })));
        w[0].reset(new W(G(pts<T>({ 1, 2, 3 })))); w[0]->get_holes().push_back(G(pts<T>({ 4, 5, 1 }))); w[1].reset(new W);
    }
    template <class X> static void same(std::unique_ptr<X>* r, const Op& o) {
        auto& a = r[(o.a - 1) % 2]; auto& b = r[(o.b - 1) % 2];
        if (o.k == 1) *a = static_cast<const X&>(*b); else if (o.k == 2) { *a = std::move(*b); b.reset(new X); } else if (o.k == 3) a.reset(new X(static_cast<const X&>(*b))); else { a.reset(new X(std::move(*b))); b.reset(new X); }
    }
    template <class X> static void list(std::unique_ptr<X>& a, const Op& o) {
        const Ids& v = lists[o.c - 1]; V s = pts<T>(v); auto p = [](long i) { return at<T>(i); };
        switch (o.b) {
        case 0: switch (o.c) { case 1: *a = { p(1), p(2), p(3) }; break; case 2: *a = { p(4) }; break; case 3: *a = std::initializer_list<T>{}; break; case 4: *a = { p(2), p(2), p(5), p(1) }; break; default: *a = { p(5), p(4), p(3), p(2), p(1), p(5) }; } break;
        case 1: *a = static_cast<const V&>(s); break;
        case 2: *a = std::move(s); break;
        case 3: switch (o.c) { case 1: a.reset(new X{ p(1), p(2), p(3) }); break; case 2: a.reset(new X{ p(4) }); break; case 3: a.reset(new X(std::initializer_list<T>{})); break; case 4: a.reset(new X{ p(2), p(2), p(5), p(1) }); break; default: a.reset(new X{ p(5), p(4), p(3), p(2), p(1), p(5) }); } break;
        case 4: a.reset(new X(static_cast<const V&>(s))); break;
        case 5: a.reset(new X(std::move(s))); break;
        case 6: a.reset(new X(s.begin(), s.end())); break;
        case 7: { a.reset(new X(s.size())); for (std::size_t i = 0; i < s.size(); ++i) point_sequence_traits<X>::get_point(*a, i) = s[i]; } break;
        default: a.reset(new X(construct<X>(s)));
        }
    }
    template <class X> static void one(std::unique_ptr<X>* r, const Op& o) {
        using A = point_sequence_traits<X>; auto& a = *r[(o.a - 1) % 2];
        switch (o.k) { case 5: if (a.size() % 2) A::push_back(a, at<T>(o.c)); else A::emplace_back(a, at<T>(o.c)); break; case 6: A::pop_back(a); break; case 7: list(r[(o.a - 1) % 2], o); break; case 9: A::get_point(a, o.b - 1) = at<T>(o.c); }
    }
    void step(const Op& o) {
        if (o.k <= 4) { if (o.a <= 2) same(g, o); else if (o.a <= 4) same(l, o); else same(w, o); return; }
        if (o.k <= 7 || o.k == 9) { if (o.a <= 2) one(g, o); else one(l, o); return; }
        switch (o.k) {
        case 8: if (o.a <= 2) { const V& v = *l[o.b - 3]; *g[o.a - 1] = v; } else { const V& v = *g[o.b - 1]; *l[o.a - 3] = v; } break;
        case 10: { W& x = *w[o.a - 5]; G& b = *g[o.b - 1]; if (o.c == 0) x.set_outer(b); else if (o.c == 1) x.set_outer(static_cast<const G&>(b)); else { x.set_outer(std::move(b)); b = G(); } } break;
        case 11: { W& x = *w[o.a - 5]; G& b = *g[o.b - 1]; if (o.c == 0) x.add_hole(b); else if (o.c == 1) x.add_hole(static_cast<const G&>(b)); else { x.add_hole(std::move(b)); b = G(); } } break;
        case 12: { G& b = *g[o.b - 1]; if (o.c == 0) w[o.a - 5].reset(new W(b)); else { w[o.a - 5].reset(new W(std::move(b))); b = G(); } } break;
        case 13: {
            G& b = *g[o.b - 1]; auto& h = w[6 - o.a]->get_holes(); const G& cb = b; const auto& ch = h; std::unique_ptr<W> n;
            if (o.c == 0) n.reset(new W(cb, ch)); else if (o.c == 1) n.reset(new W(std::move(b), ch)); else if (o.c == 2) n.reset(new W(cb, std::move(h))); else n.reset(new W(std::move(b), std::move(h)));
            if (o.c & 1) b = G(); if (o.c & 2) h.clear(); w[o.a - 5] = std::move(n); } break;
        case 14: { const W& x = *w[o.b - 5]; *g[o.a - 1] = x.get_outer(); } break;
        case 15: w[o.a - 5]->get_holes().pop_back(); break;
        case 16: w[o.a - 5]->get_outer().push_back(at<T>(o.c)); break;
        case 17: { const W& x = *w[o.b - 5]; *g[o.a - 1] = x.get_holes()[o.c - 1]; } break;
        }
    }
    static std::string holed(const W& x) {
        std::vector<Raw> h, s; bool ring = x.get_outer().size() != 1; for (auto& p : x.get_holes()) { h.push_back(Raw{ view(p) }); ring = ring && p.size() != 1; }
        if (ring) for (auto& e : polygon_with_holes_as_segment_range<segment<T>>(x)) s.push_back(Raw{ arr(name(e.get_start()), name(e.get_end())) });
        return arr(Raw{ view(x.get_outer()) }, h, s);
    }
    std::string look() const { return arr(Raw{ view(*g[0]) }, Raw{ view(*g[1]) }, Raw{ view(*l[0]) }, Raw{ view(*l[1]) }, Raw{ holed(*w[0]) }, Raw{ holed(*w[1]) }); }
    // the legal operations of a random history
    bool can(const Op& o) const {
        auto size = [&](long a) { return (long)(a <= 2 ? g[a - 1]->size() : l[a - 3]->size()); };
        switch (o.k) { case 6: return size(o.a) > 0; case 9: return o.b <= size(o.a); case 15: return !w[o.a - 5]->get_holes().empty(); case 17: return o.c <= (long)w[o.b - 5]->get_holes().size(); }
        return true;
    }
};
template <class T> static void history(const std::vector<Op>& ops) {
    std::vector<Raw> o; for (auto& q : ops) o.push_back(Raw{ arr(q.k, q.a, q.b, q.c) });
    record("hist", js(o), [&] { Machine<T> m; std::vector<Raw> r{ Raw{ m.look() } }; for (auto& q : ops) { m.step(q); r.push_back(Raw{ m.look() }); } return js(r); });
}
static Op rnd_op(Rng& r) {
    Op o{ r.in(1, 17), 0, 0, 0 };
    if (o.k <= 4) { int s = r.in(0, 2); o.a = 2 * s + r.in(1, 2); o.b = o.k == 1 ? 2 * s + r.in(1, 2) : o.a % 2 ? o.a + 1 : o.a - 1; return o; }
    switch (o.k) {
    case 5: o.a = r.in(1, 4); o.c = r.in(1, 6); break;
    case 6: o.a = r.in(1, 4); break;
    case 7: o.a = r.in(1, 4); o.b = r.in(0, 8); o.c = r.in(1, 5); break;
    case 8: o.a = r.in(1, 4); o.b = o.a <= 2 ? r.in(3, 4) : r.in(1, 2); break;
    case 9: o.a = r.in(1, 4); o.b = r.in(1, 4); o.c = r.in(1, 6); break;
    case 10: case 11: o.a = r.in(5, 6); o.b = r.in(1, 2); o.c = r.in(0, 2); break;
    case 12: o.a = r.in(5, 6); o.b = r.in(1, 2); o.c = r.in(0, 1); break;
    case 13: o.a = r.in(5, 6); o.b = r.in(1, 2); o.c = r.in(0, 3); break;
    case 14: o.a = r.in(1, 2); o.b = r.in(5, 6); break;
    case 15: o.a = r.in(5, 6); break;
    case 16: o.a = r.in(5, 6); o.c = r.in(1, 6); break;
    case 17: o.a = r.in(1, 2); o.b = r.in(5, 6); o.c = r.in(1, 3); break;
    }
    return o;
}
// shapes; coordinates are integers times a unit
struct SOp { long k, a, b, c; Ids p, q; };
template <class T> static T mkp(const Ids& p, double s) { T x; for (std::size_t k = 0; k < p.size(); ++k) x[k] = p[k] * s; return x; }
template <class T> static Ids outp(const T& x, double s) { Ids r; for (std::size_t k = 0; k < dimension_of<T>::value; ++k) r.push_back(std::lround(x[k] / s)); return r; }
static segment<pt> four(const Ids& p, const Ids& q, double s, const pt*) { return segment<pt>(p[0] * s, p[1] * s, q[0] * s, q[1] * s); }
static segment<pt3> four(const Ids& p, const Ids& q, double s, const pt3*) { return segment<pt3>(mkp<pt3>(p, s), mkp<pt3>(q, s)); }
static std::tuple<double, double, double, double> tup(const Ids& l, const Ids& h, double s, const pt*) { return std::make_tuple(l[0] * s, h[0] * s, l[1] * s, h[1] * s); }
static std::tuple<double, double, double, double, double, double> tup(const Ids& l, const Ids& h, double s, const pt3*) { return std::make_tuple(l[0] * s, h[0] * s, l[1] * s, h[1] * s, l[2] * s, h[2] * s); }
static Ids untup(const std::tuple<double, double, double, double>& t, double s) { return { std::lround(std::get<0>(t) / s), std::lround(std::get<1>(t) / s), std::lround(std::get<2>(t) / s), std::lround(std::get<3>(t) / s) }; }
static Ids untup(const std::tuple<double, double, double, double, double, double>& t, double s) { return { std::lround(std::get<0>(t) / s), std::lround(std::get<1>(t) / s), std::lround(std::get<2>(t) / s), std::lround(std::get<3>(t) / s), std::lround(std::get<4>(t) / s), std::lround(std::get<5>(t) / s) }; }
static std::vector<Ids> corners(const axis_aligned_bounding_box<pt>& x, double s) { std::vector<Ids> c; for (std::size_t k = 0; k < x.size(); ++k) c.push_back(outp(x[k], s)); return c; }
static std::vector<Ids> corners(const axis_aligned_bounding_box<pt3>&, double) { return {}; }
template <class T> struct Shapes {
    static constexpr std::size_t D = dimension_of<T>::value; using S = segment<T>; using B = axis_aligned_bounding_box<T>; using C = sphere<D, T>;
    double s; const T* tag = nullptr; S sg[2]; std::unique_ptr<B> bx[2]; C sp[2];
    explicit Shapes(double u) : s(u) { Ids z(D, 0); for (auto& x : sg) x = S(mkp<T>(z, 1), mkp<T>(z, 1)); for (auto& x : bx) x.reset(new B(mkp<T>(z, 1), mkp<T>(z, 1))); for (auto& x : sp) x = C(mkp<T>(z, 1), 0.0); }
    static Ids lo(const Ids& p, const Ids& q) { Ids r(p); for (std::size_t k = 0; k < D; ++k) r[k] = std::min(p[k], q[k]); return r; }
    static Ids hi(const Ids& p, const Ids& q) { Ids r(p); for (std::size_t k = 0; k < D; ++k) r[k] = std::max(p[k], q[k]); return r; }
    void step(const SOp& o) {
        T p = mkp<T>(o.p, s), q = mkp<T>(o.q, s); std::size_t i = (o.a - 1) % 2, j = (o.b + 1) % 2;
        switch (o.k) {
        case 1: if (o.a <= 2) { if (o.c) { S x(sg[j]); sg[i] = x; } else sg[i] = sg[j]; } else if (o.a <= 4) { if (o.c) bx[i].reset(new B(*bx[j])); else *bx[i] = *bx[j]; } else { if (o.c) { C x(sp[j]); sp[i] = x; } else sp[i] = sp[j]; } break;
        case 2: if (o.a <= 2) { if (o.c) geometrix::set_start(sg[i], p); else sg[i].set_start(p); } else sp[i].set_center(p); break;
        case 3: if (o.c) geometrix::set_end(sg[i], p); else sg[i].set_end(p); break;
        case 4: sg[i] = sg[j].reverse(); break;
        case 5:
            if (o.a <= 2) switch (o.c % 4) { case 0: sg[i] = S(p, q); break; case 1: sg[i] = make_segment(p, q); break; case 2: sg[i] = four(o.p, o.q, s, tag); break; default: sg[i] = construct<S>(polyline<T>{ p, q }); }
            else if (o.a <= 4) switch (o.c % 5) { case 0: bx[i].reset(new B(mkp<T>(lo(o.p, o.q), s), mkp<T>(hi(o.p, o.q), s))); break; case 1: bx[i].reset(new B(tup(lo(o.p, o.q), hi(o.p, o.q), s, tag))); break; case 2: *bx[i] = tup(lo(o.p, o.q), hi(o.p, o.q), s, tag); break; case 3: *bx[i] = make_aabb<T>(tup(lo(o.p, o.q), hi(o.p, o.q), s, tag)); break; default: *bx[i] = make_aabb<T>(polyline<T>{ p, q }); }
            else if (o.b % 2 && o.c % 2) sp[i] = construct<C>(p, o.c * s); else if (o.b % 2) sp[i] = C(p, o.c * s); else sp[i] = make_sphere<D>(p, o.c * s);
            break;
        case 6: sp[i].set_radius(o.c * s); break;
        case 7: bx[i]->expand(*bx[j]); break;
        case 8: bx[i]->expand(tup(lo(o.p, o.q), hi(o.p, o.q), s, tag)); break;
        }
    }
    std::string seg_view(const S& x) const { return arr(outp(geometrix::get_start(x), s), outp(geometrix::get_end(x), s), outp(get_vertex(x, 0), s), outp(get_vertex(x, 1), s), number_vertices(x)); }
    std::string box_view(const B& x) const { std::vector<Ids> c = corners(x, s); return arr(outp(x.get_lower_bound(), s), outp(x.get_upper_bound(), s), c, untup(x.to_tuple(), s)); }
    std::string sph_view(const C& x) const { bool eq = outp(x.get_center(), s) == outp(geometrix::get_center(x), s) && x.get_radius() == geometrix::get_radius(x); return arr(outp(x.get_center(), s), std::lround((eq ? x.get_radius() : -1) / s)); }
    std::string look() const { return arr(Raw{ seg_view(sg[0]) }, Raw{ seg_view(sg[1]) }, Raw{ box_view(*bx[0]) }, Raw{ box_view(*bx[1]) }, Raw{ sph_view(sp[0]) }, Raw{ sph_view(sp[1]) }); }
};
template <class T> static void shapes(const std::vector<SOp>& ops, double s) {
    std::vector<Raw> o; for (auto& q : ops) o.push_back(Raw{ arr(q.k, q.a, q.b, q.c, q.p, q.q) });
    record("shape", arr((long)dimension_of<T>::value, o), [&] { Shapes<T> m(s); std::vector<Raw> r; for (auto& q : ops) { m.step(q); r.push_back(Raw{ m.look() }); } return js(r); });
}
static void lines(P p, P u, long l, const Frame& f) {
    record("line", arr(p, u, l), [&] {
        pt a = mk(p, f), b = mk({ p.x + u.x, p.y + u.y }, f); vec v = as_vector(b - a); std::vector<Raw> r;
        auto one = [&](const line<pt>& x) {   // the distance from the image of the origin
            vec n = x.get_normal_vector(), d = x.get_parallel_vector(); double off = f.x(0) * n[0] + f.y(0) * n[1];
            using A = line_access_traits<line<pt>>; using H = hyperplane_access_traits<line<pt>>; bool eq = outp(A::get_reference_point(x), 1) == outp(x.get_reference_point(), 1) && A::get_parallel_vector(x)[0] == d[0] && A::get_parallel_vector(x)[1] == d[1] && A::get_normal_vector(x)[0] == n[0] && A::get_normal_vector(x)[1] == n[1] && H::get_normal_vector(x)[1] == n[1] && H::get_distance_to_origin(x) == x.get_distance_to_origin();
            r.push_back(Raw{ arr(eq ? out(x.get_reference_point(), f) : QP(), Raw{ arr(rat(d[0]), rat(d[1])) }, Raw{ arr(rat(n[0]), rat(n[1])) }, rat((x.get_distance_to_origin() - off) / f.len(1))) }); };
        one(line<pt>(a, b)); one(line<pt>(a, v)); one(line<pt>(seg(a, b))); one(make_line(a, b)); one(make_line(a, v)); one(make_line(seg(a, b))); one(construct<line<pt>>(a, b));
        return js(r); });
}
// a plane of space through three points, or a point and two directions: what it holds, and its unit normal and distance squared
static void planes(Ids a, Ids b, Ids c, double s) {
    auto sub = [](const Ids& x, const Ids& y) { return Ids{ x[0] - y[0], x[1] - y[1], x[2] - y[2] }; }; Ids u = sub(b, a), v = sub(c, a);
    record("plane", arr(a, b, c), [&] {
        using V = vector_double_3d; pt3 A = mkp<pt3>(a, s), B = mkp<pt3>(b, s), C = mkp<pt3>(c, s); V U = mkp<V>(u, 1), W = mkp<V>(v, 1); std::vector<Raw> r;
        auto sg = [](double z) { return z > 1e-9 ? 1 : z < -1e-9 ? -1 : 0; };
        auto dir = [&](const V& z) { std::vector<Raw> o; for (int k = 0; k < 3; ++k) o.push_back(Raw{ arr(sg(z[k]), rat(z[k] * z[k])) }); return js(o); };
        auto one = [&](const plane<pt3>& x) { using H = hyperplane_access_traits<plane<pt3>>; double d = x.get_distance_to_origin() / s; bool eq = H::get_distance_to_origin(x) == x.get_distance_to_origin() && dir(H::get_normal_vector(x)) == dir(x.get_normal_vector());
            r.push_back(Raw{ arr(eq ? outp(x.get_reference_point(), s) : Ids{}, Raw{ dir(x.get_u()) }, Raw{ dir(x.get_parallel_vector()) }, Raw{ dir(x.get_normal_vector()) }, sg(d), rat(d * d)) }); };
        one(plane<pt3>(A, B, C)); one(plane<pt3>(A, U, W)); one(make_plane(A, U, W)); one(construct<plane<pt3>>(A, U, W)); return js(r); });
}
template <class T, std::size_t N> static void held(Rng& r) {
    Ids v; for (std::size_t i = 0; i < N; ++i) v.push_back(r.in(1, 7));
    record("held", js(v), [&] {
        std::array<T, N> a; for (std::size_t i = 0; i < N; ++i) point_sequence_traits<std::array<T, N>>::get_point(a, i) = at<T>(v[i]);
        std::deque<T> d; for (std::size_t i = N; i--;) d.push_front(at<T>(v[i])); d.push_back(at<T>(1)); point_sequence_traits<std::deque<T>>::pop_back(d);
        std::vector<T> w = construct<std::vector<T>>(d); std::deque<T> e = construct<std::deque<T>>(w);
        return arr(Raw{ view(a) }, Raw{ view(d) }, Raw{ view(w) }, Raw{ view(e) }); });
    if (N == 4) record("held", js(v), [&] { rectangle<T> q(at<T>(v[0]), at<T>(v[1]), at<T>(v[2]), at<T>(v[3])); std::array<T, 4> a{ { at<T>(v[0]), at<T>(v[1]), at<T>(v[2]), at<T>(v[3]) } }; rectangle<T> q2(a); return arr(Raw{ view(q) }, Raw{ view(q2) }, Raw{ view(rectangle<T>(q)) }); });
}
template <class T> static void cap(Rng& r, double s) {
    Ids p, q; for (std::size_t k = 0; k < dimension_of<T>::value; ++k) { p.push_back(r.in(-9, 9)); q.push_back(r.in(-9, 9)); } long R = r.in(0, 9);
    record("capsule", arr(p, q, R), [&] {
        T a = mkp<T>(p, s), b = mkp<T>(q, s); std::vector<Raw> o; auto one = [&](const capsule<T>& c) { using A = capsule_access_traits<capsule<T>>; o.push_back(Raw{ arr(outp(A::get_segment(c).get_start(), s), outp(c.get_segment().get_end(), s), std::lround(A::get_radius(c) / s)) }); };
        one(capsule<T>(a, b, R * s)); one(capsule<T>(segment<T>(a, b), R * s)); one(construct<capsule<T>>(a, b, R * s)); one(construct<capsule<T>>(segment<T>(a, b), R * s)); return js(o); });
}
int main(int argc, char** argv) {
    begin(argc, argv);
    const bool th = opts().thorough; std::uint64_t k = 0;
    for (auto& h : script()) { std::vector<Op> ops; for (std::size_t i = 0; i + 3 < h.size(); i += 4) ops.push_back({ h[i], h[i + 1], h[i + 2], h[i + 3] }); if (k++ % 2) history<pt>(ops); else history<pt3>(ops); }
    Rng r = stream("c30");
    std::vector<P> tri{ { 1, 0 }, { 0, 1 }, { 3, 4 }, { 4, 3 }, { 5, 12 }, { 8, 15 }, { 20, 21 }, { 6, 8 } };
    for (int i = 0, c = th ? 12000 : 1200; i < c; ++i) {
        { std::vector<Op> ops; Machine<pt> m; for (int n = r.in(1, 25); n--;) { Op o = rnd_op(r); if (!m.can(o)) continue; m.step(o); ops.push_back(o); } if (i % 2) history<pt>(ops); else history<pt3>(ops); }
        std::size_t D = r.chance(50) ? 2 : 3; double s = r.pick(std::vector<double>{ 1, 0.25, 1. / 1024, 4096 }); std::vector<SOp> ops; auto pnt = [&] { Ids p; for (std::size_t d = 0; d < D; ++d) p.push_back(r.in(-99, 99)); return p; };
        for (int n = r.in(1, 12); n--;) {
            SOp o{ r.in(1, 8), 0, 0, 0, pnt(), pnt() };
            switch (o.k) {
            case 1: o.a = r.in(1, 6); o.b = (o.a % 2) ? o.a + 1 : o.a - 1; o.c = r.in(0, 1); if (!o.c && r.chance(10)) o.b = o.a; break;
            case 2: o.a = r.pick(std::vector<int>{ 1, 2, 5, 6 }); o.c = r.in(0, 1); break;
            case 3: o.a = r.in(1, 2); o.c = r.in(0, 1); break;
            case 4: o.a = r.in(1, 2); o.b = r.in(1, 2); break;
            case 5: o.a = r.in(1, 6); o.b = r.in(1, 2); o.c = r.in(0, 40); break;
            case 6: o.a = r.in(5, 6); o.c = r.in(0, 40); break;
            case 7: o.a = r.in(3, 4); o.b = r.in(3, 4); break;
            case 8: o.a = r.in(3, 4); break;
            }
            ops.push_back(o);
        }
        if (D == 2) shapes<pt>(ops, s); else shapes<pt3>(ops, s);
        { P t = r.pick(tri); if (r.chance(50)) std::swap(t.x, t.y); if (r.chance(50)) t.x = -t.x; if (r.chance(50)) t.y = -t.y; lines({ r.in(-20, 20), r.in(-20, 20) }, t, std::lround(std::sqrt(double(t.x * t.x + t.y * t.y))), frames()[r.next() % 6]); }
        { auto z = [&](int R) { return Ids{ r.in(-R, R), r.in(-R, R), r.in(-R, R) }; }; Ids a = z(6), u = z(2), v = z(2); if (u[0] * v[1] - u[1] * v[0] || u[1] * v[2] - u[2] * v[1] || u[0] * v[2] - u[2] * v[0]) planes(a, { a[0] + u[0], a[1] + u[1], a[2] + u[2] }, { a[0] + v[0], a[1] + v[1], a[2] + v[2] }, s); }
        held<pt, 1>(r); held<pt, 4>(r); held<pt3, 4>(r); held<pt3, 7>(r); cap<pt>(r, s); cap<pt3>(r, s);
    }
    return end();
}
