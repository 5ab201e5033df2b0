// C35: geometry of quantities with units (boost.units) against geometry of the numbers they hold
#pragma once
#include "vh.hpp"
#include <geometrix/primitive/point.hpp>
#include <geometrix/numeric/boost_units_quantity.hpp>
#include <geometrix/arithmetic/boost_units_arithmetic.hpp>
#include <geometrix/numeric/number_comparison_policy.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/cgs.hpp>
#include <boost/units/io.hpp>
#include <boost/fusion/include/make_map.hpp>
using namespace geometrix; using namespace vh;
namespace bu = boost::units;
template <class U> static std::array<int, 2> exps(const U&) {          // exponents of length and time, read from the unit's own name
    std::string s = bu::symbol_string(U()); std::array<int, 2> r{ { 0, 0 } };
    for (std::size_t i = 0; i < s.size();) {
        if (!std::isalpha((unsigned char)s[i])) { ++i; continue; }
        std::size_t j = i; while (j < s.size() && std::isalpha((unsigned char)s[j])) ++j;
        std::string n = s.substr(i, j - i); int e = 1; if (j < s.size() && s[j] == '^') { ++j; e = std::atoi(s.c_str() + j); while (j < s.size() && (s[j] == '-' || std::isdigit((unsigned char)s[j]))) ++j; }
        if (n == "m" || n == "cm") r[0] += e; else if (n == "s") r[1] += e; else if (n != "dimensionless" && n != "rad") r[0] += 100; i = j;
    }
    return r;
}
struct Si {
    using l = bu::quantity<bu::si::length>; using t = bu::quantity<bu::si::time>; using s = bu::quantity<bu::si::velocity>; using d = bu::quantity<bu::si::dimensionless>; using a = bu::quantity<bu::si::area>; using other = bu::quantity<bu::cgs::length>;
    static double k() { return 1; }
};
struct Cgs {
    using l = bu::quantity<bu::cgs::length>; using t = bu::quantity<bu::cgs::time>; using s = bu::quantity<bu::cgs::velocity>; using d = bu::quantity<bu::cgs::dimensionless>; using a = bu::quantity<bu::cgs::area>; using other = bu::quantity<bu::si::length>;
    static double k() { return 100; }
};
struct Plain { using l = double; using t = double; using s = double; using d = double; using a = double; static double k() { return 1; } };
template <class T> struct from { static T v(double x) { return T::from_value(x); } };
template <> struct from<double> { static double v(double x) { return x; } };
template <class W> struct Kit : W {
    using L = typename W::l; using T = typename W::t; using S = typename W::s; using D = typename W::d; using A = typename W::a;
    using Q = point<L, 2>; using V = vector<L, 2>; using U = vector<S, 2>; using E = vector<D, 2>; using Q3 = point<L, 3>; using V3 = vector<L, 3>;
    static L len(double x) { return from<L>::v(x * W::k()); }
    static T tim(double x) { return from<T>::v(x); }
    static S spd(double x) { return from<S>::v(x * W::k()); }
    static D num(double x) { return from<D>::v(x); }
    static Q at(double x, double y) { return Q(len(x), len(y)); }
    static V ve(double x, double y) { return V(len(x), len(y)); }
    static E un(double x, double y) { return E(num(x), num(y)); }
    template <class N> static double val(const bu::quantity<N, double>& q) { return q.value() / std::pow(W::k(), exps(N())[0]); }
    static double val(double q) { return q; }
};
#ifndef SYSTEM
#define SYSTEM Si
#endif
// the tolerances of a policy that knows lengths and areas apart, for every unit
template <class W> static auto pol() {
    using ab = absolute_tolerance_comparison_policy<double>; const double k = W::k();
    return make_mapped_tolerance_comparison_policy(ab(1e-10), boost::fusion::make_pair<typename W::l>(ab(1e-10 * k)), boost::fusion::make_pair<typename W::a>(ab(1e-10 * k * k)));
}
template <> auto pol<Plain>() { return absolute_tolerance_comparison_policy<double>(1e-10); }
