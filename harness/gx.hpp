#pragma once
#include "vh.hpp"
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/numeric/number_comparison_policy.hpp>
namespace gx {
using namespace geometrix;
using pt = point_double_2d;
using pt3 = point_double_3d;
using vec = vector_double_2d;
using seg = segment<pt>;
using pgon = polygon<pt>;
using pline = polyline<pt>;
using cmp_t = absolute_tolerance_comparison_policy<double>;
inline const cmp_t& cmp() { static cmp_t c(1e-10); return c; }
inline pt mk(vh::P p, const vh::Frame& f) { return pt(f.x(p.x), f.y(p.y)); }
inline vh::QP out(const pt& p, const vh::Frame& f, long dmax = 13000) { return vh::ratp(f.ix(p[0]), f.iy(p[1]), dmax); }
inline pgon mkpoly(const std::vector<vh::P>& v, const vh::Frame& f) { pgon r; for (auto p : v) r.push_back(mk(p, f)); return r; }
inline pline mkline(const std::vector<vh::P>& v, const vh::Frame& f) { pline r; for (auto p : v) r.push_back(mk(p, f)); return r; }
}
