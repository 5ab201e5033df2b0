// C22: expressions over scalars, vectors, points and matrices.  The expressions themselves are generated by
// spec/AlgebraGen.tla (GEN_INC); this file only knows how to bind registers and read results.
#include <geometrix/primitive/point.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include "vh.hpp"
using namespace vh;
namespace gx = geometrix;
using gx::det; using gx::trans; using gx::inv; using gx::mag; using gx::norm; using gx::rec;
template <class N> struct Store {
    N S[3];
    gx::vector<N, 3> V[3];
    gx::point<N, 3> P[3];
    gx::matrix<N, 3, 3> M[3];
};
template <class T> struct tag {};
template <int K> struct mode {};
using Vals = std::vector<double>;
inline Vals read(double s) { return { s }; }
template <class N> Vals read(const gx::vector<N, 3>& v) { return { double(v[0]), double(v[1]), double(v[2]) }; }
template <class N> Vals read(const gx::point<N, 3>& v) { return { double(v[0]), double(v[1]), double(v[2]) }; }
template <class N> Vals read(const gx::matrix<N, 3, 3>& m) { Vals r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.push_back(m[i][j]); return r; }
struct S_k { template <class St> static double* regs(St& s) { return s.S; } template <class E> static Vals elems(const E& e) { return { double(gx::get(e)) }; } using T = double; };
template <class E> Vals el3(const E& e) { return { double(gx::get<0>(e)), double(gx::get<1>(e)), double(gx::get<2>(e)) }; }
struct V_k { template <class St> static gx::vector<double, 3>* regs(St& s) { return s.V; } template <class E> static Vals elems(const E& e) { return el3(e); } using T = gx::vector<double, 3>; };
struct P_k { template <class St> static gx::point<double, 3>* regs(St& s) { return s.P; } template <class E> static Vals elems(const E& e) { return el3(e); } using T = gx::point<double, 3>; };
struct M_k { template <class St> static gx::matrix<double, 3, 3>* regs(St& s) { return s.M; } using T = gx::matrix<double, 3, 3>;
    template <class E> static Vals elems(const E& e) { return { double((gx::get<0, 0>(e))), double((gx::get<0, 1>(e))), double((gx::get<0, 2>(e))), double((gx::get<1, 0>(e))), double((gx::get<1, 1>(e))), double((gx::get<1, 2>(e))), double((gx::get<2, 0>(e))), double((gx::get<2, 1>(e))), double((gx::get<2, 2>(e))) }; } };

// 0: into a register the expression may read;  1: element by element;  2: a new object
template <class K, class E> Vals eval(mode<0>, Store<double>& st, int dst, const E& e) { K::regs(st)[dst] <<= e; return read(K::regs(st)[dst]); }
template <class K, class E> Vals eval(mode<1>, Store<double>&, int, const E& e) { return K::elems(e); }
template <class K, class E> Vals eval(mode<2>, Store<double>&, int, const E& e) { typename K::T t = gx::as<typename K::T>(e); return read(t); }
// 3: plain assignment
template <class K, class E> Vals eval(mode<3>, Store<double>& st, int dst, const E& e) { K::regs(st)[dst] = gx::as<typename K::T>(e); return read(K::regs(st)[dst]); }

static Vals all(const Store<double>& s, char skip, int dst) {
    Vals r;
    for (int i = 0; i < 3; ++i) {
        if (!(skip == 'S' && i == dst)) r.push_back(s.S[i]);
        if (!(skip == 'V' && i == dst)) for (double x : read(s.V[i])) r.push_back(x);
        if (!(skip == 'P' && i == dst)) for (double x : read(s.P[i])) r.push_back(x);
        if (!(skip == 'M' && i == dst)) for (double x : read(s.M[i])) r.push_back(x);
    }
    return r;
}
static Raw num(const Vals& v) { std::string r = "["; for (std::size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + js((long)v[i]); return { r + "]" }; }
static std::string show(const Store<double>& s) {
    std::string r = "{";
    r += "\"S\":" + arr(num(read(s.S[0])), num(read(s.S[1])), num(read(s.S[2])));
    r += ",\"V\":" + arr(num(read(s.V[0])), num(read(s.V[1])), num(read(s.V[2])));
    r += ",\"P\":" + arr(num(read(s.P[0])), num(read(s.P[1])), num(read(s.P[2])));
    r += ",\"M\":" + arr(num(read(s.M[0])), num(read(s.M[1])), num(read(s.M[2])));
    return r + "}";
}
static Store<double> rnd(Rng& g) {
    static const int py[][3] = { { 1, 2, 2 }, { 2, 3, 6 }, { 0, 3, 4 }, { 2, -2, 1 }, { -6, 2, 3 }, { 4, -4, 2 }, { 0, 0, 3 }, { 1, 4, -8 }, { -2, 0, 0 } };
    Store<double> s;
    for (int i = 0; i < 3; ++i) {
        s.S[i] = g.chance(10) ? 0 : g.in(1, 4) * (g.chance(50) ? 1 : -1);
        if (g.chance(50)) { auto& q = py[g.in(0, 8)]; for (int j = 0; j < 3; ++j) s.V[i][j] = q[j]; } else for (int j = 0; j < 3; ++j) s.V[i][j] = g.in(-3, 3);
        for (int j = 0; j < 3; ++j) s.P[i][j] = g.in(-9, 9);
        for (int j = 0; j < 9; ++j) s.M[i][j / 3][j % 3] = g.chance(15) ? 0 : g.in(-3, 3);
        if (g.chance(8)) for (int j = 0; j < 3; ++j) s.M[i][2][j] = s.M[i][0][j] * 2 - s.M[i][1][j];    // singular
    }
    return s;
}
template <class F> void run(int n, char ty, int leaves, const char* text, int md, int reps, F f) {
    Rng g = stream(text);
    bool sq = !std::strncmp(text, "[\"mag\"", 6) || !std::strncmp(text, "[\"norm\"", 7);
    for (int k = 0; k < reps; ++k) {
        Store<double> st = rnd(g), before = st;
        int b[8]; std::vector<int> bv; for (int i = 0; i < leaves; ++i) bv.push_back(b[i] = g.in(0, g.chance(40) ? 0 : 2));
        int dst = g.chance(60) ? bv[g.in(0, leaves - 1)] : g.in(0, 2);
        record("expression", arr(Raw{ text }, Raw{ show(st) }, bv, dst, md), [&] {
            Vals v; bool sing = false;
            try { v = f(st, b, dst); } catch (const std::logic_error&) { sing = true; }
            std::vector<Q> q; for (double x : v) q.push_back(rat(sq ? x * std::fabs(x) : x, 60000));
            bool assigns = md == 0 || md == 3;
            return std::string("{\"s\":") + (sing ? "1" : "0") + ",\"v\":" + js(q) + ",\"o\":" + js(all(st, assigns ? ty : '-', dst) == all(before, assigns ? ty : '-', dst)) + "}";
        });
    }
}
#define S(k) st.S[b[k]]
#define V(k) st.V[b[k]]
#define P(k) st.P[b[k]]
#define M(k) st.M[b[k]]
#define ONE(n, TY, L, text, md, reps, e) run(n, #TY[0], L, text, md, reps, [](Store<double>& st, const int* b, int dst) { return eval<TY##_k>(mode<md>(), st, dst, e); });
#define CASE(n, deep, TY, L, text, e) CASE_##deep(n, TY, L, text, e)
#define CASE_0(n, TY, L, text, e) static void f##n(int R) { ONE(n, TY, L, text, 0, R * 8, e) ONE(n, TY, L, text, 1, R * 8, e) ONE(n, TY, L, text, 2, R * 8, e) ONE(n, TY, L, text, 3, R * 8, e) } static Reg r##n(f##n);
#define CASE_1(n, TY, L, text, e) static void f##n(int R) { ONE(n, TY, L, text, n % 4, R, e) } static Reg r##n(f##n);
static std::vector<void (*)(int)>& cases() { static std::vector<void (*)(int)> c; return c; }
struct Reg { Reg(void (*f)(int)) { cases().push_back(f); } };
#include GEN_INC
#undef S
#undef V
#undef P
#undef M
int main(int argc, char** argv) {
    begin(argc, argv);
    for (auto f : cases()) f(opts().thorough ? 120 : 20);
    return end();
}
