// C22: determinants, inverses, traces, products, views, LUP factorisation, projections, normals, homogeneous
// coordinates - every dimension the headers are instantiated for.
#include <geometrix/primitive/point.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/tensor/is_null.hpp>
#include <geometrix/tensor/homogeneous_adaptor.hpp>
#include <geometrix/tensor/identity_matrix.hpp>
#include <geometrix/tensor/matrix_minor_adaptor.hpp>
#include <geometrix/tensor/numeric_sequence_compare.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algebra/exterior_product.hpp>
#include <geometrix/algebra/vector_projection.hpp>
#include <geometrix/algebra/lup_decomposition.hpp>
#include <geometrix/arithmetic/matrix/trace.hpp>
#include <geometrix/arithmetic/vector/perp.hpp>
#include <geometrix/arithmetic/vector/is_antiparallel.hpp>
#include <geometrix/utility/utilities.hpp>
#include "vh.hpp"
using namespace vh;
namespace gx = geometrix;
static const long DM = 60000;
static Q rq(double v) { return rat(v, DM); }
template <class N, std::size_t R, std::size_t C> std::vector<std::vector<long>> ints(const gx::matrix<N, R, C>& m, double s = 1) { std::vector<std::vector<long>> r(R); for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) r[i].push_back(std::lround(m[i][j] / s)); return r; }
template <class N, std::size_t R, std::size_t C> std::vector<std::vector<Q>> rats(const gx::matrix<N, R, C>& m, double s = 1) { std::vector<std::vector<Q>> r(R); for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) r[i].push_back(rq(m[i][j] / s)); return r; }
// single precision: the smallest denominator that explains the value
inline Q ratf(double v) { for (long d = 1; d <= 400; ++d) { double n = std::round(v * d); if (std::fabs(v * d - n) < 1e-6 * d * std::max(1., std::fabs(v))) return rat(n / d, DM); } return rat(v, DM); }
template <std::size_t R, std::size_t C> std::vector<std::vector<Q>> ratsf(const gx::matrix<double, R, C>& m) { std::vector<std::vector<Q>> r(R); for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) r[i].push_back(ratf(m[i][j])); return r; }
template <std::size_t R, std::size_t C, class N = double> gx::matrix<N, R, C> rm(Rng& g, int lo, int hi, int zero = 15) { gx::matrix<N, R, C> m; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) m[i][j] = g.chance(zero) ? 0 : g.in(lo, hi); return m; }
template <std::size_t D, class N = double> gx::vector<N, D> rv(Rng& g, int lo, int hi) { gx::vector<N, D> v; for (std::size_t i = 0; i < D; ++i) v[i] = g.in(lo, hi); return v; }
template <class V> std::vector<long> vi(const V& v, std::size_t n) { std::vector<long> r; for (std::size_t i = 0; i < n; ++i) r.push_back(std::lround(v[i])); return r; }
template <class V> std::vector<Q> vq(const V& v, std::size_t n) { std::vector<Q> r; for (std::size_t i = 0; i < n; ++i) r.push_back(rq(v[i])); return r; }
template <class N, std::size_t K> void square(Rng& g, int lim) {
    auto m = rm<K, K, N>(g, -lim, lim);
    if (g.chance(15)) for (std::size_t j = 0; j < K; ++j) m[K - 1][j] = m[0][j];
    record("det", arr(ints(m)), [&] { return arr(rq(gx::determinant(m)), rq(gx::trace(m))); });
    record("trans", arr(ints(m)), [&] { gx::matrix<N, K, K> t = m; t <<= gx::trans(t); return arr(rats(t)); });
    // the inverse of a matrix of integers is computed in integers: only floating-point matrices are inverted
    if (!std::is_integral<N>::value) record("inverse", arr(ints(m)), [&] { gx::matrix<double, K, K> t; try { t <<= gx::inv(m); } catch (const std::logic_error&) { return std::string("[1,[]]"); } return arr(0, std::is_same<N, float>::value ? ratsf(t) : rats(t)); });
}
template <std::size_t R, std::size_t C> struct vw {
    template <class M> static void go(const M& m, std::vector<std::vector<Q>>& rows, std::vector<std::vector<Q>>& cols) {
        gx::row<M, 0> r0(m); gx::row<M, R - 1> r1(m); gx::column<M, 0> c0(m); gx::column<M, C - 1> c1(m);
        rows = { el<C>(r0), el<C>(r1) }; cols = { el<R>(c0), el<R>(c1) };
    }
    template <std::size_t N, class S> static std::vector<Q> el(const S& s) { std::vector<Q> r; el_<0, N>(s, r, std::integral_constant<bool, (0 < N)>()); return r; }
    template <std::size_t I, std::size_t N, class S> static void el_(const S&, std::vector<Q>&, std::false_type) {}
    template <std::size_t I, std::size_t N, class S> static void el_(const S& s, std::vector<Q>& r, std::true_type) { r.push_back(rq(gx::get<I>(s))); el_<I + 1, N>(s, r, std::integral_constant<bool, (I + 1 < N)>()); }
};
template <class T, std::size_t K, class V> void apply(const gx::matrix<T, K, K>& m, const V& v) { record("apply", arr(ints(m), vi(v, K)), [&] { V p, q = v; p <<= m * v; q <<= m * q; return arr(vq(p, K), vq(q, K)); }); }
template <class M, class V> void apply(const M&, const V&) {}
template <std::size_t A, std::size_t B, std::size_t C> void rect(Rng& g) {
    auto m = rm<A, B>(g, -9, 9); auto n = rm<B, C>(g, -9, 9); auto m2 = rm<A, B>(g, -9, 9); auto v = rv<B>(g, -9, 9); double s = g.in(-5, 5);
    record("product", arr(ints(m), ints(n)), [&] { gx::matrix<double, A, C> p; p <<= m * n; return arr(rats(p)); });
    record("trans", arr(ints(m)), [&] { gx::matrix<double, B, A> p; p <<= gx::trans(m); return arr(rats(p)); });
    record("sum", arr(ints(m), ints(m2), (long)s), [&] { gx::matrix<double, A, B> p, q; p <<= m + m2; q <<= m - s * m2; return arr(rats(p), rats(q)); });
    apply(m, v);
    record("views", arr(ints(m)), [&] { std::vector<std::vector<Q>> r, c; vw<A, B>::go(m, r, c); return arr(r, c); });
    record("kron", arr(ints(m), ints(n)), [&] { gx::matrix<double, A * B, B * C> p; p <<= m & n; return arr(rats(p)); });
}
template <std::size_t K> void lup(Rng& g) {
    static const double sc[] = { 1, 0.25, 0.0625, 8, 1024, 0.001953125 };
    double s = g.chance(40) ? 1 : sc[g.in(0, 5)];
    auto m = rm<K, K>(g, -4, 4);
    std::vector<long> x; for (std::size_t i = 0; i < K; ++i) x.push_back(g.in(-6, 6));
    boost::array<double, K> b;
    for (std::size_t i = 0; i < K; ++i) { b[i] = 0; for (std::size_t j = 0; j < K; ++j) { b[i] += m[i][j] * x[j]; } b[i] *= s; }
    auto orig = m;
    for (std::size_t i = 0; i < K; ++i) for (std::size_t j = 0; j < K; ++j) m[i][j] *= s;
    record("lup", arr(ints(orig), x), [&] {
        boost::array<std::size_t, K> pi; auto lu = m;
        try { gx::lup_decomposition(lu, pi); } catch (const std::logic_error&) { return std::string("{\"s\":1,\"pi\":[],\"x\":[],\"big\":false,\"lu\":[]}"); }
        auto sol = gx::lup_solve(lu, pi, b);
        bool big = false; for (std::size_t i = 0; i < K; ++i) for (std::size_t j = 0; j < i; ++j) if (std::fabs(lu[i][j]) > 1 + 1e-12) big = true;
        std::vector<std::vector<Q>> f;
        if (K <= 3) { f.resize(K); for (std::size_t i = 0; i < K; ++i) for (std::size_t j = 0; j < K; ++j) f[i].push_back(rq(j < i ? lu[i][j] : lu[i][j] / s)); }
        std::vector<Q> xs; for (std::size_t i = 0; i < K; ++i) xs.push_back(std::fabs(sol[i] - std::floor(sol[i] + 0.5)) < 1e-6 * (1 + std::fabs(sol[i])) ? rq(std::floor(sol[i] + 0.5)) : rq(sol[i]));
        std::vector<long> p(pi.begin(), pi.end());
        return std::string("{\"s\":0,\"pi\":") + js(p) + ",\"x\":" + js(xs) + ",\"big\":" + js(big) + ",\"lu\":" + js(f) + "}";
    });
}
template <std::size_t D, class N> void vecs(Rng& g) {
    auto a = rv<D, N>(g, -9, 9), b = rv<D, N>(g, -9, 9); if (g.chance(10)) for (std::size_t i = 0; i < D; ++i) b[i] = -2 * a[i];
    long s = g.in(-6, 6);
    record("dot", arr(vi(a, D), vi(b, D)), [&] { N x; x <<= a * b; return arr(rq(gx::dot_product(a, b)), rq(x)); });
    record("lin", arr(vi(a, D), vi(b, D), s), [&] { gx::vector<N, D> p, q, n; p = a + b; q = a; q <<= q - N(s) * b; n <<= -a; return arr(vq(p, D), vq(q, D), vq(n, D)); });
    record("sqr", arr(vi(a, D)), [&] { double m = gx::magnitude(a); return arr(rq(gx::magnitude_sqrd(a)), rq(std::is_same<N, float>::value && std::fabs(m * m - std::round(m * m)) < 1e-3 ? std::round(m * m) : m * m), gx::is_null(a)); });
    record("equal", arr(vi(a, D), vi(b, D)), [&] { gx::direct_comparison_policy c; return arr(gx::numeric_sequence_equals(a, b, c), gx::numeric_sequence_equals(a, a, c)); });
}
template <class V> V reversed(V v, std::integral_constant<std::size_t, 2>) { gx::assign(v, v[1], v[0]); return v; }
template <class V> V reversed(V v, std::integral_constant<std::size_t, 3>) { gx::assign(v, v[2], v[1], v[0]); return v; }
template <class V> V reversed(V v, std::integral_constant<std::size_t, 4>) { gx::assign(v, v[3], v[2], v[1], v[0]); return v; }
// in-place updates, with operands that refer to the destination
template <std::size_t D, class N> void inplace(Rng& g) {
    auto m = rm<D, D, N>(g, -5, 5); auto a = rv<D, N>(g, -9, 9), b = rv<D, N>(g, -9, 9); N s = g.in(1, 7); if (g.chance(50)) s = -s;
    record("inplace", arr(ints(m), vi(a, D), vi(b, D), (long)s), [&] {
        std::vector<std::vector<Q>> r; auto put = [&](const gx::vector<N, D>& x) { r.push_back(vq(x, D)); };
        { auto v = a; v += b; put(v); } { auto v = a; v -= b; put(v); } { auto v = a; v *= s; put(v); }
        { auto v = a; gx::vector<double, D> w; for (std::size_t i = 0; i < D; ++i) w[i] = v[i]; w /= double(s); r.push_back(vq(w, D)); }
        { auto v = a; v = m * v; put(v); } { auto v = a; v += m * v; put(v); } { auto v = a; v -= m * v; put(v); } { auto v = a; gx::assign(v, m * v); put(v); }
        { auto v = a; (v += b) -= s * b; put(v); } { auto v = a; v *= v[D - 1]; put(v); }
        { auto v = a; v.set(0, b[1]); v.template set<1>(b[0]); gx::set<D - 1>(v, s); v.get(1) += N(1); put(v); }
        { gx::point<N, D> q = a; gx::point<N, D> t = b; q = q + m * (t - q); put(gx::vector<N, D>(gx::as_vector(q))); }
        { gx::point<N, D> q = a; gx::assign(q, q + m * gx::as_vector(q)); put(gx::vector<N, D>(gx::as_vector(q))); }
        put(reversed(a, std::integral_constant<std::size_t, (D < 5 ? D : 2)>()));
        return js(r);
    });
}
template <std::size_t D> void proj(Rng& g) {
    static const double sc[] = { 1, 0.25, 16, 1024 };
    double s = sc[g.in(0, 3)];
    auto a = rv<D>(g, -9, 9), b = rv<D>(g, -9, 9);
    bool z = true; for (std::size_t i = 0; i < D; ++i) z = z && b[i] == 0; if (z) return;
    auto A = a, B = b; for (std::size_t i = 0; i < D; ++i) { A[i] *= s; B[i] *= s; }
    record("project", arr(vi(a, D), vi(b, D)), [&] {
        gx::vector<double, D> p = gx::vector_projection(A, B); for (std::size_t i = 0; i < D; ++i) p[i] /= s;
        double k = gx::scalar_projection(A, gx::normalize(B)) / s; auto u = gx::normalize(B);
        std::vector<Q> sq; for (std::size_t i = 0; i < D; ++i) sq.push_back(rq(u[i] * std::fabs(u[i])));
        std::vector<Q> sn; gx::vector<double, D> w; w <<= gx::norm(B); for (std::size_t i = 0; i < D; ++i) sn.push_back(rq(w[i] * std::fabs(w[i])));
        return arr(vq(p, D), rq(k * std::fabs(k)), sq, sn);
    });
}
int main(int argc, char** argv) {
    begin(argc, argv);
    Rng g = stream("matrices");
    int n = opts().thorough ? 1500 : 120;
    for (int i = 0; i < n; ++i) {
        square<double, 2>(g, 9); square<double, 3>(g, 6); square<double, 4>(g, 3); square<int, 2>(g, 9); square<int, 3>(g, 6); square<float, 3>(g, 4);
        if (i % 4 == 0) { square<double, 5>(g, 2); square<int, 4>(g, 3); }
        rect<2, 3, 2>(g); rect<3, 2, 4>(g); rect<2, 2, 2>(g); if (i % 4 == 0) { rect<3, 5, 2>(g); rect<4, 4, 4>(g); }
        for (int k = 0; k < 4; ++k) { lup<2>(g); lup<3>(g); lup<4>(g); lup<5>(g); } if (i % 4 == 0) lup<6>(g);
        vecs<2, double>(g); vecs<3, double>(g); vecs<4, double>(g); vecs<5, double>(g); vecs<6, double>(g); vecs<2, int>(g); vecs<3, int>(g); vecs<2, float>(g); vecs<3, float>(g); vecs<8, double>(g);
        for (int k = 0; k < 2; ++k) { inplace<2, double>(g); inplace<3, double>(g); inplace<4, double>(g); } inplace<2, int>(g); inplace<3, float>(g);
        for (int k = 0; k < 4; ++k) { proj<2>(g); proj<3>(g); proj<4>(g); }
        for (int k = 0; k < 4; ++k) {
            auto a = rv<2>(g, -9, 9), b = rv<2>(g, -9, 9);
            if (g.chance(25)) { int f = g.in(-3, 3); b[0] = f * a[0]; b[1] = f * a[1]; }
            record("normals", arr(vi(a, 2)), [&] { return arr(vq(gx::perp(a), 2), vq(gx::left_normal(a), 2), vq(gx::right_normal(a), 2), vq(gx::oriented_normal<gx::oriented_left>(a), 2), vq(gx::oriented_normal<gx::oriented_right>(a), 2)); });
            record("area", arr(vi(a, 2), vi(b, 2)), [&] { return arr(rq(gx::exterior_product_area(a, b))); });
            auto u = rv<3>(g, -9, 9), v = rv<3>(g, -9, 9), w = rv<3>(g, -9, 9);
            if (g.chance(20)) { int f = g.in(-2, 2); for (int i = 0; i < 3; ++i) w[i] = f * u[i] - v[i]; }
            record("volume", arr(vi(u, 3), vi(v, 3), vi(w, 3)), [&] { gx::vector<double, 3> c; c <<= u ^ v; double m = gx::exterior_product_area(u, v); return arr(rq(gx::exterior_product_volume(u, v, w)), vq(c, 3), rq(m)); });
            // affine maps in homogeneous coordinates: points are moved, directions only turned
            auto m = rm<3, 3>(g, -4, 4); m[2][0] = m[2][1] = 0; m[2][2] = 1;
            gx::point<double, 2> p(g.in(-9, 9), g.in(-9, 9));
            record("affine2", arr(ints(m), vi(p, 2), vi(a, 2)), [&] { gx::point<double, 2> q = m * gx::as_positional_homogeneous<double>(p); gx::vector<double, 2> d = m * gx::as_vectoral_homogeneous<double>(a); return arr(vq(q, 2), vq(d, 2)); });
            auto t = rm<3, 3>(g, -4, 4); t[2][0] = t[2][1] = 0; t[2][2] = 1;
            record("affine2b", arr(ints(m), ints(t), vi(p, 2)), [&] { gx::point<double, 2> q = (m * t) * gx::as_positional_homogeneous<double>(p); return arr(vq(q, 2)); });
            auto m4 = rm<4, 4>(g, -4, 4); m4[3][0] = m4[3][1] = m4[3][2] = 0; m4[3][3] = 1;
            gx::point<double, 3> p3(g.in(-9, 9), g.in(-9, 9), g.in(-9, 9));
            record("affine3", arr(ints(m4), vi(p3, 3), vi(u, 3)), [&] { gx::point<double, 3> q = m4 * gx::as_positional_homogeneous<double>(p3); gx::vector<double, 3> d = m4 * gx::as_vectoral_homogeneous<double>(u); return arr(vq(q, 3), vq(d, 3)); });
            auto m3 = rm<3, 3>(g, -9, 9);
            record("minors", arr(ints(m3)), [&] {
                auto mm = [](auto x) { return std::vector<Q>{ rq((gx::get<0, 0>(x))), rq((gx::get<0, 1>(x))), rq((gx::get<1, 0>(x))), rq((gx::get<1, 1>(x))) }; };
                return arr(mm(gx::as_matrix_minor<0, 0>(m3)), mm(gx::as_matrix_minor<0, 1>(m3)), mm(gx::as_matrix_minor<0, 2>(m3)), mm(gx::as_matrix_minor<1, 0>(m3)), mm(gx::as_matrix_minor<1, 1>(m3)), mm(gx::as_matrix_minor<1, 2>(m3)), mm(gx::as_matrix_minor<2, 0>(m3)), mm(gx::as_matrix_minor<2, 1>(m3)), mm(gx::as_matrix_minor<2, 2>(m3)));
            });
        }
    }
    return end();
}
