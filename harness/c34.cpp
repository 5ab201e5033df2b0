// C34: points and vectors of the user's own kinds, adapted as the documentation shows
#include <geometrix/primitive/point.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/tensor/fusion_vector.hpp>
#include <geometrix/tensor/numeric_sequence_compare.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/deque_point_sequence.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/utility/member_function_fusion_adaptor.hpp>
#include <geometrix/tensor/tuple_vector_access_policy.hpp>
#include <geometrix/tensor/fusion_vector_access_policy.hpp>
#include <geometrix/tensor/index_operator_vector_access_policy.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <boost/tuple/tuple.hpp>
#include "gx.hpp"
#ifndef KINDS
#define KINDS 1
#endif
using namespace vh;

using Op = std::array<long, 5>;
#define SEQ(T, N) GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_CONSTRUCTION_POLICY(T, N) GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_ASSIGNMENT_POLICY(T, N)
#define PT3(T, NUM, ACC) GEOMETRIX_DEFINE_POINT_TRAITS(T, NUM, 3, double, double, neutral_reference_frame_3d, ACC<T>) SEQ(T, 3)
#define VE3(T, NUM, ACC) GEOMETRIX_DEFINE_VECTOR_TRAITS(T, NUM, 3, double, double, neutral_reference_frame_3d, ACC<T>) SEQ(T, 3)
#define PT2(T, NUM, ACC) GEOMETRIX_DEFINE_POINT_TRAITS(T, NUM, 2, double, double, neutral_reference_frame_2d, ACC<T>) SEQ(T, 2)
// coordinates behind functions that give references, or values of several types
struct FnP { FnP(double x = 0, double y = 0, double z = 0) : a(x), b(y), c(z) {} double& x() { return a; } double& y() { return b; } double& z() { return c; } const double& x() const { return a; } const double& y() const { return b; } const double& z() const { return c; } void sx(const double& v) { a = v; } void sy(const double& v) { b = v; } void sz(const double& v) { c = v; } double a, b, c; };
struct MxP { MxP(float x = 0, long y = 0, short z = 0) : a(x), b(y), c(z) {} float x() const { return a; } long y() const { return b; } short z() const { return c; } void sx(float v) { a = v; } void sy(long v) { b = v; } void sz(short v) { c = v; } float a; long b; short c; };
// tuples, and things with an index
template <class B> struct Tup : B { Tup(double x = 0, double y = 0, double z = 0) : B(x, y, z) {} };
typedef boost::tuple<double, double, double> T3;
struct TuP : T3 { TuP(double x = 0, double y = 0, double z = 0) : T3(x, y, z) {} };
struct TuV : T3 { TuV(double x = 0, double y = 0, double z = 0) : T3(x, y, z) {} };
struct Ix { std::vector<double> p; const double& operator[](std::size_t i) const { return p[i]; } double& operator[](std::size_t i) { return p[i]; } };
struct IxP : Ix { IxP(double x = 0, double y = 0, double z = 0) { p = { x, y, z }; } };
struct IxV : Ix { IxV(double x = 0, double y = 0, double z = 0) { p = { x, y, z }; } };
struct Fn2 { Fn2(double x = 0, double y = 0) : a(x), b(y) {} double& x() { return a; } double& y() { return b; } const double& x() const { return a; } const double& y() const { return b; } void sx(const double& v) { a = v; } void sy(const double& v) { b = v; } double a, b; };
struct Tu2 : boost::tuple<double, double> { Tu2(double x = 0, double y = 0) : boost::tuple<double, double>(x, y) {} };
struct Ix2 { Ix2(double x = 0, double y = 0) : p{ x, y } {} std::vector<double> p; const double& operator[](std::size_t i) const { return p[i]; } double& operator[](std::size_t i) { return p[i]; } };
GEOMETRIX_MEMBER_FUNCTION_FUSION_SEQUENCE(FnP, (double&, const double&, x, sx)(double&, const double&, y, sy)(double&, const double&, z, sz));
GEOMETRIX_MEMBER_FUNCTION_FUSION_SEQUENCE(MxP, (float, float, x, sx)(long, long, y, sy)(short, short, z, sz));
GEOMETRIX_MEMBER_FUNCTION_FUSION_SEQUENCE(Fn2, (double&, const double&, x, sx)(double&, const double&, y, sy));
GEOMETRIX_COMPILE_INDEXED_MEMBER_FUNCTION_FUSION_SEQUENCE(TuP, double, get, 3);
GEOMETRIX_COMPILE_INDEXED_MEMBER_FUNCTION_FUSION_SEQUENCE(TuV, double, get, 3);
GEOMETRIX_COMPILE_INDEXED_MEMBER_FUNCTION_FUSION_SEQUENCE(Tu2, double, get, 2);
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(IxP, double, 3);
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(IxV, double, 3);
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(Ix2, double, 2);
using namespace geometrix;
PT3(FnP, (double), fusion_vector_member_function_access_policy)
PT3(MxP, (float)(long)(short), fusion_vector_member_function_access_policy)
PT3(TuP, (double), tuple_vector_access_policy)
PT3(IxP, (double), index_operator_vector_access_policy)
VE3(TuV, (double), tuple_vector_access_policy)
VE3(IxV, (double), index_operator_vector_access_policy)
PT2(Fn2, (double), fusion_vector_member_function_access_policy)
PT2(Tu2, (double), tuple_vector_access_policy)
PT2(Ix2, (double), index_operator_vector_access_policy)
GEOMETRIX_FUSION_POD_VECTOR(PdV, (double)(double)(double), double, geometrix::neutral_reference_frame_3d);
GEOMETRIX_FUSION_POD_VECTOR(MxV, (double)(float)(int), double, geometrix::neutral_reference_frame_3d);
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_ASSIGNMENT_POLICY(PdV, 3)
GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_ASSIGNMENT_POLICY(MxV, 3)
#if KINDS == 1
typedef FnP P1; typedef TuP P2; typedef point<double, 3> P3; typedef PdV V1; typedef TuV V2; typedef vector<double, 3> V3;
#else
typedef MxP P1; typedef point<float, 3> P2; typedef IxP P3; typedef IxV V1; typedef MxV V2; typedef TuV V3;
#endif
static double U = 1;   // coordinates are counted in units of 1 / U
static const bool MIXED = KINDS == 2;
static long wh(double v) { return v == std::floor(v) && std::fabs(v) < 1e9 ? (long)v : -1999999999L; }
template <class S> static std::string co(const S& s) { return arr(wh(U * get<0>(s)), wh(U * get<1>(s)), wh(U * get<2>(s))); }
template <class S> static void put(S& s, long i, long n) { double v = n / U; if (i == 1) set<0>(s, v); else if (i == 2) set<1>(s, v); else set<2>(s, v); }
struct World {
    P1 p1; P2 p2; P3 p3; V1 v1; V2 v2; V3 v3;
    World() : p1(construct<P1>(1, 2, 3)), p2(construct<P2>(-2, 0, 4)), p3(construct<P3>(3, 3, -1)), v1(construct<V1>(1, 0, -1)), v2(construct<V2>(0, 2, 1)), v3(construct<V3>(-1, 1, 3)) {}
    template <class F> void p(long k, F f) { if (k == 1) f(p1); else if (k == 2) f(p2); else f(p3); }
    template <class F> void v(long k, F f) { if (k == 1) f(v1); else if (k == 2) f(v2); else f(v3); }
    template <class A, class B> static long d2(const A& a, const B& b) { return wh(U * U * point_point_distance_sqrd(a, b)); }
    template <class A, class B> static long dt(const A& a, const B& b) { return wh(U * U * dot_product(a, b)); }
#if KINDS == 1
    template <class A, class B> static bool eq(const A& a, const B& b) { return numeric_sequence_equals(a, b, gx::cmp()); }
#else   // numbers of different types are not compared
    template <class A, class B> static bool eq(const A& a, const B& b) { typedef point<double, 3> Q; return numeric_sequence_equals(construct<Q>(a), construct<Q>(b), gx::cmp()); }
#endif
    long triple() const { vector<double, 3> n; n <<= v2 ^ v3; return wh(U * U * U * dot_product(v1, n)); }
    Raw seen() const {
        return Raw{ arr(Raw{ arr(Raw{ co(p1) }, Raw{ co(p2) }, Raw{ co(p3) }) }, Raw{ arr(Raw{ co(v1) }, Raw{ co(v2) }, Raw{ co(v3) }) },
            Raw{ arr(dt(v1, v1), dt(v1, v2), dt(v1, v3), dt(v2, v1), dt(v2, v2), dt(v2, v3), dt(v3, v1), dt(v3, v2), dt(v3, v3)) },
            Raw{ arr(d2(p1, p1), d2(p1, p2), d2(p1, p3), d2(p2, p1), d2(p2, p2), d2(p2, p3), d2(p3, p1), d2(p3, p2), d2(p3, p3)) },
            Raw{ arr(eq(p1, p1), eq(p1, p2), eq(p1, p3), eq(p2, p1), eq(p2, p2), eq(p2, p3), eq(p3, p1), eq(p3, p2), eq(p3, p3)) },
            triple(), Raw{ arr(wh(U * U * magnitude_sqrd(v1)), wh(U * U * magnitude_sqrd(v2)), wh(U * U * magnitude_sqrd(v3))) }) };
    }
};
static void history(const std::vector<Op>& ops, std::size_t salt, long u = 1) {
    U = u;
    record("history", arr(ops, u, MIXED), [&] {
        World w; std::vector<Raw> out; std::size_t n = salt;
        for (auto& o : ops) {
            const long t = o[1], i = o[2], j = o[3], c = o[4]; bool other = ++n % 2;
#define TO_P(E) w.p(t, [&](auto& r) { typedef std::decay_t<decltype(r)> R; E; })
#define TO_V(E) w.v(t, [&](auto& r) { typedef std::decay_t<decltype(r)> R; E; })
#define P_(k, x, E) w.p(k, [&](auto& x) { E; })
#define V_(k, x, E) w.v(k, [&](auto& x) { E; })
            switch (o[0]) {
            case 1: TO_P(put(r, i, j)); break;
            case 2: TO_V(put(r, i, j)); break;
            case 3: if (other) TO_P(P_(i, a, r = construct<R>(a))); else TO_P(P_(i, a, assign(r, a))); break;
            case 4: if (other) TO_V(V_(i, a, r = construct<R>(a))); else TO_V(V_(i, a, assign(r, a))); break;
            case 5: TO_P(P_(i, a, V_(j, b, r <<= a + b))); break;
            case 6: TO_P(P_(i, a, V_(j, b, r <<= a - b))); break;
            case 7: TO_V(P_(i, a, P_(j, b, r <<= a - b))); break;
            case 8: TO_V(V_(i, a, V_(j, b, r <<= a + b))); break;
            case 9: TO_V(V_(i, a, V_(j, b, r <<= a - b))); break;
            case 10: if (other) TO_V(V_(i, a, V_(j, b, r <<= a ^ b))); else TO_V(V_(i, a, V_(j, b, assign(r, a ^ b)))); break;
            case 11: if (other) TO_V(V_(i, a, r <<= c * a)); else TO_V(V_(i, a, r <<= a * (int)c)); break;
            case 12: TO_V(P_(i, a, V_(j, b, r <<= as_vector(a) + b))); break;
            case 13: TO_V(V_(i, a, r <<= -a)); break;
            case 14: if (U != 1) TO_P(r = construct<R>(i / U, j / U, c / U)); else if (other) TO_P(r = construct<R>((int)i, (int)j, (int)c)); else TO_P(assign(r, (int)i, (int)j, (int)c)); break;
            case 15: if (U != 1) TO_V(r = construct<R>(i / U, j / U, c / U)); else if (other) TO_V(r = construct<R>((int)i, (int)j, (int)c)); else TO_V(assign(r, (int)i, (int)j, (int)c)); break;
            case 16: if (other) TO_P(P_(i, a, P_(j, b, r <<= a + 0.5 * (b - a)))); else TO_P(P_(i, a, P_(j, b, r <<= a + (b - a) / 2.0))); break;
            case 17: TO_V(V_(i, a, r <<= a + c * r)); break;
            case 18: TO_P(P_(i, a, P_(j, b, r <<= r + c * (a - b)))); break;
            case 19: TO_P(R q(r); put(q, 1 + n % 3, 77)); break;
            case 20: TO_V(R q(r); put(q, 1 + n % 3, 77)); break;
            }
            out.push_back(w.seen());
        }
        return js(out);
    });
}
#if KINDS == 1
template <class P> static P at(const std::array<long, 2>& a) { return construct<P>(a[0], a[1]); }
template <class P> static std::string flat1(const std::vector<std::array<long, 2>>& s, const std::vector<std::array<long, 2>>& v) {
    P a = at<P>(s[0]), b = at<P>(s[1]), c = at<P>(s[2]), d = at<P>(s[3]);
    std::vector<P> g; for (auto& q : v) g.push_back(at<P>(q)); std::deque<P> dq(g.begin(), g.end());
    P x[2]; auto it = segment_segment_intersection(a, b, c, d, x, gx::cmp());
    auto in = [&](const P& q) { bool u = point_in_polygon(q, g), w = point_in_polygon(q, dq); return u == w ? u : !u; };
    auto area = [](double t) { return (long)std::lround(2 * t); };
    auto ce = get_centroid(g);
    axis_aligned_bounding_box<P> bx = make_aabb<P>(g), by = make_aabb<P>(dq);
    auto box = [](const axis_aligned_bounding_box<P>& z) { return Raw{ arr(rat(get<0>(z.get_lower_bound())), rat(get<0>(z.get_upper_bound())), rat(get<1>(z.get_lower_bound())), rat(get<1>(z.get_upper_bound()))) }; };
    return arr((long)get_orientation(a, b, c, gx::cmp()), lexicographically_less_than(a, b, gx::cmp()), numeric_sequence_equals(a, b, gx::cmp()), (long)std::lround(point_point_distance_sqrd(a, c)),
        Raw{ arr(it != e_non_crossing, ratp(get<0>(x[0]), get<1>(x[0]), 40000)) }, Raw{ arr(in(a), in(d)) }, area(get_signed_area(g)) == area(get_signed_area(dq)) ? area(get_signed_area(g)) : -99999, ratp(get<0>(ce), get<1>(ce), 40000),
        Raw{ arr(box(bx), box(by)) });
}
static void flat(const std::vector<std::array<long, 2>>& s, const std::vector<std::array<long, 2>>& v) {
    record("flat", arr(s[0], s[1], s[2], s[3], v), [&] { return arr(Raw{ flat1<Fn2>(s, v) }, Raw{ flat1<Tu2>(s, v) }, Raw{ flat1<Ix2>(s, v) }); });
}
#endif
int main(int argc, char** argv) {
    begin(argc, argv);
    const bool th = opts().thorough; std::size_t salt = 0;
    for (auto& s : script()) { std::vector<Op> ops; for (std::size_t i = 0; i + 4 < s.size(); i += 5) ops.push_back({ { s[i], s[i + 1], s[i + 2], s[i + 3], s[i + 4] } }); if (th || (salt + opts().seed) % 6 == KINDS) history(ops, salt); ++salt; }
    Rng r = stream(KINDS == 1 ? "c34" : "c34b");
    for (int n = 0, c = th ? 20000 : 1500; n < c; ++n) {
        std::vector<Op> ops; std::array<std::array<long, 3>, 6> s{ { { { 1, 2, 3 } }, { { -2, 0, 4 } }, { { 3, 3, -1 } }, { { 1, 0, -1 } }, { { 0, 2, 1 } }, { { -1, 1, 3 } } } };
        const long u = r.chance(50) ? 4 : 1; for (auto& q : s) for (auto& x : q) x *= u; auto td = [&](long x) { return (x < 0 ? -1 : 1) * (std::labs(x) / u) * u; };
        for (int k = r.in(3, 12), guard = 0; k > 0 && guard < 90; ++guard) {
            Op o{ { r.in(1, 20), r.in(1, 3), r.in(1, 3), r.in(1, 3), 0 } }; const long code = o[0];
            if (code <= 2) o[3] = r.in(-20, 20); else if (code == 11 || code == 17 || code == 18) o[4] = r.in(-3, 3); else if (code == 14 || code == 15) { o[2] = r.in(-9, 9); o[3] = r.in(-9, 9); o[4] = r.in(-9, 9); } else if (code >= 19) o[2] = o[3] = 0;
            const bool top = code == 1 || code == 3 || code == 5 || code == 6 || code == 14 || code == 16 || code == 18 || code == 19; auto q = s[(top ? 0 : 3) + o[1] - 1];
            auto P = [&](long k) { return s[k - 1]; }; auto V = [&](long k) { return s[k + 2]; }; const auto was = q; bool odd = false;
            for (int x = 0; x < 3; ++x) switch (code) {
            case 1: case 2: if (o[2] == x + 1) q[x] = o[3]; break;
            case 3: q[x] = P(o[2])[x]; break; case 4: q[x] = V(o[2])[x]; break;
            case 5: case 12: q[x] = P(o[2])[x] + V(o[3])[x]; break; case 6: q[x] = P(o[2])[x] - V(o[3])[x]; break;
            case 7: q[x] = P(o[2])[x] - P(o[3])[x]; break; case 8: q[x] = V(o[2])[x] + V(o[3])[x]; break; case 9: q[x] = V(o[2])[x] - V(o[3])[x]; break;
            case 10: q[x] = V(o[2])[(x + 1) % 3] * V(o[3])[(x + 2) % 3] - V(o[2])[(x + 2) % 3] * V(o[3])[(x + 1) % 3]; odd = odd || q[x] % u; q[x] /= u; break;
            case 11: q[x] = o[4] * V(o[2])[x]; break; case 13: q[x] = -V(o[2])[x]; break; case 14: case 15: q[x] = o[2 + x]; break;
            case 16: odd = odd || (P(o[2])[x] + P(o[3])[x]) % 2; q[x] = (P(o[2])[x] + P(o[3])[x]) / 2; break;
            case 17: q[x] = V(o[2])[x] + o[4] * was[x]; break; case 18: q[x] = was[x] + o[4] * (P(o[2])[x] - P(o[3])[x]); break; }
            if (MIXED && top && o[1] == 1) { q[1] = td(q[1]); q[2] = td(q[2]); } if (MIXED && !top && o[1] == 2) q[2] = td(q[2]);
            if (odd || std::labs(q[0]) > 200 || std::labs(q[1]) > 200 || std::labs(q[2]) > 200) continue;
            s[(top ? 0 : 3) + o[1] - 1] = q; ops.push_back(o); --k;
        }
        history(ops, r.in(0, 50), u);
#if KINDS == 1
        const long L = r.chance(50) ? 4 : 12; std::vector<std::array<long, 2>> t, v; for (int k = 0; k < 4; ++k) t.push_back({ { r.in(-L, L), r.in(-L, L) } });
        for (auto& e : rnd_simple(r, r.in(3, 6), (int)-L, (int)L)) v.push_back({ { (long)e.x, (long)e.y } });
        flat(t, v);
#endif
    }
    return end();
}
