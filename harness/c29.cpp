// C29: cartesian and polar coordinates of the same points
#include "gx.hpp"
#include <memory>
#include <geometrix/utility/array.hpp>
#include <geometrix/space/cartesian_reference_frame.hpp>
#include <geometrix/space/polar_reference_frame.hpp>
#include <geometrix/space/cartesian_polar_transformation.hpp>
#include <geometrix/space/polar_cartesian_transformation.hpp>
#include <geometrix/space/cartesian_access_traits.hpp>
#include <geometrix/space/polar_access_traits.hpp>
#include <geometrix/algebra/algebra.hpp>
using namespace vh; using namespace gx;
struct Pt { long x, y, rho, z, r; };
struct Op { long k, a, b; };
using dim2 = std::integral_constant<int, 2>; using dim3 = std::integral_constant<int, 3>;
static std::string list(const std::vector<Pt>& v, bool three) { std::vector<Raw> r; for (auto& p : v) r.push_back(Raw{ three ? arr(p.x, p.y, p.rho, p.z, p.r) : arr(p.x, p.y, p.rho) }); return js(r); }
static std::string dir(double t, bool ok) { return arr(rat(std::cos(t)), rat(std::sin(t)), ok); }
static std::string az(double t) { return dir(t, t >= -constants::pi<double>() && t <= constants::pi<double>()); }
static std::string inc(double t) { return dir(t, t >= 0 && t <= constants::pi<double>()); }
template <class S> static S native(const Pt& p, bool polar, double s, double turn, dim2) { return polar ? S(p.rho * s, std::atan2(double(p.y), double(p.x)) + turn) : S(p.x * s, p.y * s); }
template <class S> static S native(const Pt& p, bool polar, double s, double turn, dim3) { return polar ? S(p.r * s, std::atan2(double(p.y), double(p.x)) + turn, std::atan2(double(p.rho), double(p.z))) : S(p.x * s, p.y * s, p.z * s); }
template <class R> static std::string cart_view(const R& c, double s, dim2) { return arr(rat(get_x(c).value() / s), rat(get_y(c).value() / s)); }
template <class R> static std::string cart_view(const R& c, double s, dim3) { return arr(rat(get_x(c).value() / s), rat(get_y(c).value() / s), rat(get_z(c).value() / s)); }
template <class R> static std::string polar_view(const R& c, double s, dim2) { return arr(rat(get_r(c).value() / s), Raw{ az(get_theta(c).value()) }); }
template <class R> static std::string polar_view(const R& c, double s, dim3) { return arr(rat(get_r(c).value() / s), Raw{ az(get_theta(c).value()) }, Raw{ inc(get_phi(c).value()) }); }
template <class R> static std::string native_view(const R& c, double s, bool pol, dim2) { return pol ? arr(rat(get<0>(c) / s), Raw{ az(get<1>(c)) }) : arr(rat(get<0>(c) / s), rat(get<1>(c) / s)); }
template <class R> static std::string native_view(const R& c, double s, bool pol, dim3) { return pol ? arr(rat(get<0>(c) / s), Raw{ az(get<1>(c)) }, Raw{ inc(get<2>(c)) }) : arr(rat(get<0>(c) / s), rat(get<1>(c) / s), rat(get<2>(c) / s)); }
// S: the sequence behind the frame; s: unit of length
template <class S, int D> struct Machine {
    using N = std::integral_constant<int, D>;
    using C = reference_frame_adaptor<S, cartesian_reference_frame<D>>; using O = reference_frame_adaptor<S, polar_reference_frame<D>>;
    std::unique_ptr<C> c[2]; std::unique_ptr<O> o[2]; double s;
    Machine(const Pt& p, double u) : s(u) { for (auto& x : c) x.reset(new C(native<S>(p, false, s, 0, N()))); for (auto& x : o) x.reset(new O(native<S>(p, true, s, 0, N()))); }
    template <class T, class F> void move(std::unique_ptr<T>& to, const F& from, bool make) { if (make) to.reset(new T(from)); else *to = from; }
    template <class T> void any(std::unique_ptr<T>& to, long g, bool make) { if (g <= 2) move(to, *c[g - 1], make); else move(to, *o[g - 3], make); }
    void step(const std::vector<Pt>& pts, const Op& op) {
        if (op.k == 1) { const Pt& p = pts[op.b - 1]; if (op.a <= 2) *c[op.a - 1] = native<S>(p, false, s, 0, N()); else *o[op.a - 3] = native<S>(p, true, s, 0, N()); }
        else if (op.a <= 2) any(c[op.a - 1], op.b, op.k == 3);
        else any(o[op.a - 3], op.b, op.k == 3);
    }
    template <class R> std::string view(const R& x, bool pol) const { return arr(vh::Raw{ cart_view(x, s, N()) }, vh::Raw{ polar_view(x, s, N()) }, vh::Raw{ native_view(x, s, pol, N()) }); }
    std::string look() const { return arr(Raw{ view(*c[0], false) }, Raw{ view(*c[1], false) }, Raw{ view(*o[0], true) }, Raw{ view(*o[1], true) }); }
};
template <class S, int D> static void history(const std::vector<Pt>& pts, const std::vector<Op>& ops, double s) {
    std::vector<Raw> o; for (auto& q : ops) o.push_back(Raw{ arr(q.k, q.a, q.b) });
    record("hist", arr(Raw{ list(pts, D == 3) }, o), [&] { Machine<S, D> m(pts[0], s); std::vector<Raw> r; for (auto& q : ops) { m.step(pts, q); r.push_back(Raw{ m.look() }); } return js(r); });
}
static void turn(long R, const Pt& p, int k) {
    record("turn", arr(R, p.x, p.y, p.rho), [&] {
        using O = reference_frame_adaptor<pt, polar_reference_frame_2d>; using C = reference_frame_adaptor<pt, cartesian_reference_frame_2d>;
        C c(O(pt(double(R), std::atan2(double(p.y), double(p.x)) + k * constants::two_pi<double>()))); return arr(rat(c[0]), rat(c[1])); });
}
static void neutral(long x, long y) {
    record("raw", arr(x, y), [&] {
        using O = reference_frame_adaptor<pt, polar_reference_frame_2d>; using C = reference_frame_adaptor<pt, cartesian_reference_frame_2d>;
        pt p{ double(x), double(y) }; C c(p); O o(p); auto q = [](double a, double b) { return Raw{ arr(rat(a), rat(b)) }; };
        return arr(q(c[0], c[1]), q(o[0], o[1]), q(get_x(c).value(), get_y(c).value())); });
}
int main(int argc, char** argv) {
    begin(argc, argv);
    const bool th = opts().thorough; std::uint64_t k = 0;
    std::vector<Pt> base2{ { 3, 4, 5, 0, 0 }, { -4, 3, 5, 0, 0 }, { 0, -5, 5, 0, 0 } }, base3{ { 3, 4, 5, 12, 13 }, { -4, 3, 5, 0, 5 }, { 0, -6, 6, -8, 10 } };
    std::vector<double> units{ 1, 0.25, 64, 1. / 1024, 4096 };
    for (auto& h : script()) {
        std::vector<Op> ops; for (std::size_t i = 0; i + 2 < h.size(); i += 3) ops.push_back({ h[i], h[i + 1], h[i + 2] });
        double s = units[k % units.size()]; switch (k++ % 4) { case 0: history<pt, 2>(base2, ops, s); break; case 1: history<pt3, 3>(base3, ops, s); break; case 2: history<vector_double_2d, 2>(base2, ops, s); break; default: history<vector_double_3d, 3>(base3, ops, s); }
    }
    Rng r = stream("c29");
    std::vector<Pt> b2, b3;
    for (long x = -40; x <= 40; ++x) for (long y = -40; y <= 40; ++y) { long q = std::lround(std::sqrt(double(x * x + y * y))); if (q * q != x * x + y * y) continue; b2.push_back({ x, y, q, 0, 0 }); for (long z = -40; z <= 40; ++z) { long t = std::lround(std::sqrt(double(q * q + z * z))); if (t * t == q * q + z * z) b3.push_back({ x, y, q, z, t }); } }
    for (int i = 0, c = th ? 20000 : 1500; i < c; ++i) {
        bool three = r.chance(50); std::vector<Pt> pts; for (int n = r.in(1, 5); n--;) pts.push_back(three ? r.pick(b3) : r.pick(b2));
        std::vector<Op> ops; for (int n = r.in(1, 12); n--;) { Op o{ r.in(1, 3), r.in(1, 4), 0 }; if (o.k == 1) o.b = r.in(1, (int)pts.size()); else do o.b = r.in(1, 4); while (o.k == 3 && o.b == o.a); ops.push_back(o); }
        double s = r.pick(units); bool v = r.chance(50);
        if (three) v ? history<vector_double_3d, 3>(pts, ops, s) : history<pt3, 3>(pts, ops, s); else v ? history<vector_double_2d, 2>(pts, ops, s) : history<pt, 2>(pts, ops, s);
        Pt p = r.pick(b2); if (p.rho) turn(r.in(0, 90), p, r.in(-3, 3));
        neutral(r.in(-50, 50), r.in(-50, 50));
    }
    return end();
}
