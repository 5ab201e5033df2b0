// C23: comparison policies
#include "gx.hpp"
#include <geometrix/tensor/numeric_sequence_compare.hpp>
#include <geometrix/tensor/is_null.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/arithmetic/arithmetic.hpp>
#include <geometrix/arithmetic/vector.hpp>
#include <geometrix/algebra/expression.hpp>
#include <boost/units/systems/si/length.hpp>
#include <boost/units/systems/si/area.hpp>
#include <boost/units/systems/si/plane_angle.hpp>
#include <boost/units/physical_dimensions.hpp>
#include <boost/units/dimensionless_quantity.hpp>
#include <boost/units/limits.hpp>
#include <geometrix/arithmetic/boost_units_arithmetic.hpp>
using namespace vh; using namespace gx;
using len_t = boost::units::quantity<boost::units::si::length, double>;
using area_t = boost::units::quantity<boost::units::si::area, double>;
using ang_t = boost::units::quantity<boost::units::si::plane_angle, double>;
using B5 = std::array<int, 5>;
static std::string b5(std::array<bool, 5> b) { std::vector<bool> v(b.begin(), b.end()); return js(v); }
template <class C, class A, class B> static std::array<bool, 5> ask(const C& c, const A& u, const B& v) { return { c.equals(u, v), c.less_than(u, v), c.less_than_or_equal(u, v), c.greater_than(u, v), c.greater_than_or_equal(u, v) }; }
template <class C, class A> static std::array<bool, 5> fn(const C& c, const A& u, const A& v) { return { equals<C>(c)(u, v), less_than<C>(c)(u, v), less_than_or_equal<C>(c)(u, v), greater_than<C>(c)(u, v), greater_than_or_equal<C>(c)(u, v) }; }
template <class A, class B, class T> static std::array<bool, 5> freeabs(const A& u, const B& v, const T& t) { return { equals_within_absolute_tolerance(u, v, t), less_than_with_absolute_tolerance(u, v, t), less_than_or_equal_with_absolute_tolerance(u, v, t), greater_than_with_absolute_tolerance(u, v, t), greater_than_or_equal_with_absolute_tolerance(u, v, t) }; }
template <class A, class B, class T> static std::array<bool, 5> freefrac(const A& u, const B& v, const T& t) { return { equals_within_fraction_tolerance(u, v, t), less_than_with_fraction_tolerance(u, v, t), less_than_or_equal_with_fraction_tolerance(u, v, t), greater_than_with_fraction_tolerance(u, v, t), greater_than_or_equal_with_fraction_tolerance(u, v, t) }; }
template <class C, class A, class B> static void cmpr(int p, long c, long z, long u, long v, const C& pol, const A& a, const B& b) { record("compare", arr(p, c, z, u, v), [&] { return b5(ask(pol, a, b)); }); }
template <class C, class A> static void cmpf(int p, long c, long z, long u, long v, const C& pol, const A& a, const A& b) { cmpr(p, c, z, u, v, pol, a, b); record("compare", arr(p, c, z, u, v), [&] { return b5(fn(pol, a, b)); }); }
template <class T> static void all(long c, long z, long u, long v, int e) {
    T a = std::ldexp(T(u) / 8, e), b = std::ldexp(T(v) / 8, e), t = T(c) / 64, y = T(z) / 64;
    cmpf(0, c, z, u, v, direct_comparison_policy(), a, b);
    cmpf(1, c, z, u, v, absolute_tolerance_comparison_policy<T>(std::ldexp(t, e)), a, b);
    record("compare", arr(1, c, z, u, v), [&] { return b5(freeabs(a, b, std::ldexp(t, e))); });
    cmpf(2, c, z, u, v, fraction_tolerance_comparison_policy<T>(t, std::ldexp(y, e)), a, b);
    if (e == 0) {
        cmpf(2, c, c, u, v, fraction_tolerance_comparison_policy<T>(t), a, b);
        record("compare", arr(2, c, c, u, v), [&] { return b5(freefrac(a, b, t)); });
        cmpf(3, c, z, u, v, relative_tolerance_comparison_policy<T>(t), a, b);
    }
}
int main(int argc, char** argv) {
    begin(argc, argv);
    const bool th = opts().thorough; std::uint64_t k = 0;
    for (long c : { 0, 1, 4, 8, 16, 24, 63 }) for (long u = -6; u <= 6; ++u) for (long v = -6; v <= 6; ++v) if (mine(k++)) { if (k & 8) all<double>(c, c, u, v, 0); else all<float>(c, c, u, v, 0); }
    Rng r = stream("c23");
    for (int i = 0, n = th ? 20000 : 2500; i < n; ++i) {
        long c = r.chance(20) ? 0 : r.in(1, 63), z = r.in(0, 80), u = r.in(-200, 200), v = r.chance(60) ? u + r.in(-9, 9) : r.chance(30) ? 0 : r.in(-200, 200); if (r.chance(5)) u = 0;
        if (r.chance(20) && u) { c = 16; v = u * 5 / 4; if (v * 4 != u * 5) v += r.in(0, 1); if (r.chance(50)) v = -v; }
        int e = r.chance(50) ? 0 : r.in(-60, 60);
        if (r.chance(60)) all<double>(c, z, u, v, r.chance(10) ? e * 10 : e); else if (r.chance(50)) all<float>(c, z, u, v, e / 2); else all<long double>(c, z, u, v, e);
        if (i % 2 == 0) {                                     // integers and mixed operands
            long t = r.in(0, 5), a = r.in(-20, 20), b = r.in(-20, 20);
            cmpf(1, 64 * t, 0, 8 * a, 8 * b, absolute_tolerance_comparison_policy<int>(t), int(a), int(b)); cmpf(0, 0, 0, a, b, direct_comparison_policy(), a, b);
            cmpr(1, c, z, 8 * a, v, absolute_tolerance_comparison_policy<double>(c / 64.0), int(a), v / 8.0); cmpr(0, 0, 0, 8 * a, v, direct_comparison_policy(), int(a), v / 8.0f);
            cmpr(2, c, c, 8 * a, v, fraction_tolerance_comparison_policy<double>(c / 64.0), float(a), v / 8.0); cmpr(3, c, c, 8 * a, v, relative_tolerance_comparison_policy<double>(c / 64.0), double(a), v / 8.0f);
            // default tolerances are 1e-10: one unit below, two units above
            const double un = std::ldexp(1.0, -34); cmpf(1, 8, 0, a, b, absolute_tolerance_comparison_policy<double>(), 3 + a * un, 3 + b * un); cmpf(2, 0, 8, 0, b, fraction_tolerance_comparison_policy<double>(), 0.0, b * un);
        }
        if (i % 3 == 0) {
            namespace si = boost::units::si;
            auto A = absolute_tolerance_comparison_policy<double>(c / 64.0); auto Rl = relative_tolerance_comparison_policy<double>(z / 64.0); auto F = fraction_tolerance_comparison_policy<double>(0.25);
            using R3 = std::array<long, 3>; std::vector<R3> reg{ { 1, c, 0 }, { 3, z, 0 }, { 2, 16, 16 }, { 0, 0, 0 } };
            auto m = make_mapped_tolerance_comparison_policy(A, boost::fusion::make_pair<len_t>(Rl), boost::fusion::make_pair<area_t>(F), boost::fusion::make_pair<float>(direct_comparison_policy()));
            double a = u / 8.0, b = v / 8.0;
            record("mapped", arr(reg, 1, u, v), [&] { return b5(ask(m, a * si::meters, b * si::meters)); });
            record("mapped", arr(reg, 2, u, v), [&] { return b5(ask(m, a * si::meters * si::meters, b * si::meters * si::meters)); });
            record("mapped", arr(reg, 0, u, v), [&] { return b5(ask(m, a * si::radians, b * si::radians)); });
            record("mapped", arr(reg, 0, u, v), [&] { return b5(ask(m, a, b)); });
            record("mapped", arr(reg, 3, u, v), [&] { return b5(ask(m, float(a), float(b))); });
            record("mapped", arr(reg, 0, u, v), [&] { return b5(ask(m, a, float(b))); });
            std::vector<R3> one{ { 1, c, 0 }, { 3, c, 0 } };
            mapped_tolerance_comparison_policy<absolute_tolerance_comparison_policy<double>, boost::fusion::pair<ang_t, relative_tolerance_comparison_policy<double>>> w(c / 64.0);
            record("mapped", arr(one, 1, u, v), [&] { return b5(ask(w, a * si::radians, b * si::radians)); });
            record("mapped", arr(one, 0, u, v), [&] { return b5(ask(w, a * si::meters, b * si::meters)); });
            std::vector<long> p, q; for (int j = 0; j < 3; ++j) { p.push_back(r.in(-9, 9)); q.push_back(r.chance(70) ? p.back() + r.in(-2, 2) : r.in(-9, 9)); }
            std::vector<long> p2(p.begin(), p.begin() + 2), q2(q.begin(), q.begin() + 2);
            pt P2(p[0] / 8.0, p[1] / 8.0), Q2(q[0] / 8.0, q[1] / 8.0); pt3 P3(p[0] / 8.0, p[1] / 8.0, p[2] / 8.0), Q3(q[0] / 8.0, q[1] / 8.0, q[2] / 8.0);
            record("sequence", arr(p2, q2, 1, c, 0), [&] { return js(numeric_sequence_equals(P2, Q2, A)); }); record("sequence", arr(p2, q2, 1, c, 0), [&] { return js(numeric_sequence_equals_2d(P2, Q2, A)); });
            record("sequence", arr(p, q, 1, c, 0), [&] { return js(numeric_sequence_equals(P3, Q3, A)); }); record("sequence", arr(p, q, 3, z, 0), [&] { return js(numeric_sequence_equals_3d(P3, Q3, Rl)); });
            record("sequence", arr(p, q, 0, 0, 0), [&] { return js(numeric_sequence_equals(P3, Q3, direct_comparison_policy())); });
            for (auto& x : p) if (r.chance(50)) x = r.in(-1, 1); p2 = { p[0], p[1] };
            record("null", arr(p2, 1, c, 0), [&] { return js(is_null(vec(p[0] / 8.0, p[1] / 8.0), A)); }); record("null", arr(p, 1, c, 0), [&] { return js(is_null(vector<double, 3>(p[0] / 8.0, p[1] / 8.0, p[2] / 8.0), A)); });
            record("null", arr(p2, 0, 0, 0), [&] { return js(is_null(vec(p[0] / 8.0, p[1] / 8.0))); });
        }
    }
    for (int i = 0, n = th ? 6000 : 800; i < n; ++i) {    // limits, signs and pairs
        long lo = r.in(-9, 9), hi = lo + r.in(0, 12), u = r.in(-14, 14), v = r.in(-14, 14);
        record("limits", arr(u, lo, hi, v), [&] { return arr(clamp((int)u, (int)lo, (int)hi), long(clamp(u / 8.0, lo / 8.0, hi / 8.0) * 8), sign((int)u), sign(u / 8.0), min_copy(u, v), max_copy(u, v), long(8 * min_copy(u / 8.0, v / 8.0)), long(8 * max_copy(u / 8.0, v / 8.0))); });
        long c = r.in(0, 40), z = r.in(0, 60); std::array<long, 4> q; for (auto& x : q) x = r.in(-9, 9); int p = r.in(0, 3);
        record("pairs", arr(p, c, p == 2 ? z : c, q), [&] {
            std::pair<double, float> a(q[0] / 8.0, q[1] / 8.0f), b(q[2] / 8.0, q[3] / 8.0f);
            auto ask2 = [&](const auto& pol) { using C = std::decay_t<decltype(pol)>; less_than<C> l(pol); pair_first_compare<less_than<C>> f(l); pair_second_compare<less_than<C>> g(l); return arr(f(a, b), f(b, a), g(a, b), g(b, a)); };
            return p == 0 ? ask2(direct_comparison_policy()) : p == 1 ? ask2(absolute_tolerance_comparison_policy<double>(c / 64.0)) : p == 2 ? ask2(fraction_tolerance_comparison_policy<double>(c / 64.0, z / 64.0)) : ask2(relative_tolerance_comparison_policy<double>(c / 64.0));
        });
    }
    return end();
}
