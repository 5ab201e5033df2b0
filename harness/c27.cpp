// C27: fixed-point numbers
#include "vh.hpp"
#include <geometrix/numeric/fixed_point.hpp>
#include <geometrix/tensor/scalar.hpp>
#include <geometrix/tensor/tensor_access_policy.hpp>
// as GEOMETRIX_DEFINE_NUMERIC_TRAITS does for a type of one's own
namespace geometrix { template <typename T> struct is_numeric<fixed_point<T>> : boost::true_type {}; template <typename T> struct numeric_traits<fixed_point<T>> { typedef fixed_point<T> numeric_type; typedef boost::false_type is_float; typedef boost::false_type is_integral; typedef void is_numeric; static const unsigned int digits = 9; }; }
using namespace vh;
namespace gx { using namespace geometrix; }
using Op = std::array<long, 3>;
struct Kind { long radix, digits, shift, lo, hi, rounding; };
inline std::string js(const Kind& k) { return arr(k.radix, k.digits, k.shift, k.lo, k.hi, k.rounding); }
static const long BIG = 2147483647;
using HE = gx::round_half_to_even; using TZ = gx::round_toward_zero; using UP = gx::round_toward_infinity<double>; using DN = gx::round_toward_neg_infinity<double>;
template <class F, class S, class R> struct Def { using type = gx::fixed_point<gx::fixed_point_traits<F, S, R>>; using scale = S; };
template <int R, int E> using GC = gx::generic_compile_time_scale_policy<R, E>;
template <int E> using BC = gx::binary_compile_time_scale_policy<E>;
using GR = gx::generic_run_time_scale_policy<10>; using BR = gx::binary_run_time_scale_policy;
using K1 = Def<long long, GC<10, 2>, HE>; using K2 = Def<int, GC<10, 1>, TZ>; using K3 = Def<int, BC<3>, HE>; using K4 = Def<long long, GR, HE>; using K5 = Def<int, BR, HE>;
using K6 = Def<short, GC<10, 2>, HE>; using K7 = Def<short, BC<2>, TZ>; using K8 = Def<long long, GC<10, 1>, UP>; using K9 = Def<int, BC<1>, DN>;
static const Kind kinds[] = { {}, { 10, 2, 0, -BIG, BIG, 0 }, { 10, 1, 0, -BIG, BIG, 1 }, { 2, 3, 1, -BIG, BIG, 0 }, { 10, 3, 0, -BIG, BIG, 0 }, { 2, 4, 1, -BIG, BIG, 0 }, { 10, 2, 0, -32768, 32767, 0 }, { 2, 2, 1, -32768, 32767, 1 }, { 10, 1, 0, -BIG, BIG, 2 }, { 2, 1, 1, -BIG, BIG, 3 } };
template <class S> S scale_of(const Kind&, std::false_type) { return S(); }
template <class S> S scale_of(const Kind& k, std::true_type) { return S(k.digits); }
template <class S> S scale_of(const Kind& k) { return scale_of<S>(k, std::integral_constant<bool, std::is_same<S, GR>::value || std::is_same<S, BR>::value>()); }
static long lscale(const Kind& k) { long s = 1; for (long i = 0; i < k.digits; ++i) s *= k.radix; return s; }
// hands the amount n/d on as an integer, a long long, a float or a double
template <class G> static void amount(const Op& o, std::size_t how, G g) { if (o[2] == 1 && how % 4 == 0) g(int(o[1])); else if (o[2] == 1 && how % 4 == 1) g((long long)o[1]); else if ((o[2] & (o[2] - 1)) == 0 && how % 4 == 2) g(float(o[1]) / float(o[2])); else g(double(o[1]) / double(o[2])); }
template <class Df> static void session(const Kind& k, const std::vector<Op>& ops, std::size_t salt) {
    using F = typename Df::type;
    record("session", arr(k, ops), [&] {
        auto sc = scale_of<typename Df::scale>(k); F x(sc), y(sc); std::vector<Raw> r; std::size_t n = salt;
        for (auto& o : ops) {
            bool refused = false; bool other = (++n / 2) % 2;
            try {
                switch (o[0]) {
                case 1: amount(o, n, [&](auto v) { if (other) x = v; else x = F(v, sc); }); break;
                case 2: amount(o, n, [&](auto v) { if (other) y = F(v, sc); else y = v; }); break;
                case 3: if (other) x = x + y; else x += y; break;
                case 4: if (other) x = x - y; else x -= y; break;
                case 5: if (other) x = x * y; else x *= y; break;
                case 6: if (other) x = x / y; else x /= y; break;
                case 7: x = -x; break;
                case 8: if (other) { F z = x++; F w = z; ++w; if (!(w == x) || z == x) x = z; } else ++x; break;
                case 9: if (other) { F z = x--; F w = z; --w; if (!(w == x) || z == x) x = z; } else --x; break;
                case 10: if (other) x.swap(y); else { F z(x); x = y; y = z; } break;
                case 11: y = x; break;
                case 12: amount(o, n, [&](auto v) { if (other) x = x + v; else if (n % 3) x += v; else x = v + x; }); break;
                case 13: amount(o, n, [&](auto v) { if (other) x = x - v; else x -= v; }); break;
                case 14: amount(o, n, [&](auto v) { if (other) x = x * v; else if (n % 3) x *= v; else x = v * x; }); break;
                case 15: amount(o, n, [&](auto v) { if (other) x = x / v; else x /= v; }); break;
                case 16: amount(o, n, [&](auto v) { x = v - x; }); break;
                case 17: amount(o, n, [&](auto v) { x = v / x; }); break;
                case 18: x = fmod(x, y); break;
                case 19: y += y; break;
                case 20: y *= y; break;
                case 21: if (x < y - y) x = -x; break;
                }
            } catch (const boost::numeric::bad_numeric_cast&) { refused = true; }
            r.push_back(Raw{ arr(refused, (long)x.get_scaled_value(), (long)y.get_scaled_value(), rat(x.template convert_to<double>(), 2000), (long)x.template convert_to<int>(), x < y, x == y, x > y, bool(x)) });
        }
        return js(r);
    });
}
static void run(int k, const std::vector<Op>& ops, std::size_t salt) {
    switch (k) { case 1: session<K1>(kinds[k], ops, salt); break; case 2: session<K2>(kinds[k], ops, salt); break; case 3: session<K3>(kinds[k], ops, salt); break; case 4: session<K4>(kinds[k], ops, salt); break; case 5: session<K5>(kinds[k], ops, salt); break;
    case 6: session<K6>(kinds[k], ops, salt); break; case 7: session<K7>(kinds[k], ops, salt); break; case 8: session<K8>(kinds[k], ops, salt); break; case 9: session<K9>(kinds[k], ops, salt); break; }
}
template <class A, class B> static void conv(const Kind& a, const Kind& b, long m, int how) {
    record("conv", arr(a, b, m), [&] {
        using FA = typename A::type; using FB = typename B::type; auto x = FA::from_format_value(m, scale_of<typename A::scale>(a)); auto sb = scale_of<typename B::scale>(b); FB y(sb);
        try { if (how == 0) y = FB(x, sb); else y = x; } catch (const boost::numeric::bad_numeric_cast&) { return arr(true, (long)y.get_scaled_value()); }
        return arr(false, (long)y.get_scaled_value());
    });
}
template <class Df> static void compare(const Kind& k, long m, long n, long d, int how) {
    record("compare", arr(k, m, n, d), [&] {
        std::string s; auto x = Df::type::from_format_value(m, scale_of<typename Df::scale>(k));
        amount(Op{ { 0, n, d } }, how, [&](auto v) { s = arr(x < v, x <= v, x == v, x != v, x >= v, x > v, v < x, v <= x, v == x, v != x, v >= x, v > x); });
        return s;
    });
}
template <class Df> static void limits(const Kind& k, bool run_time) {
    record("limits", arr(k), [&] { using F = typename Df::type; F one = F(1, scale_of<typename Df::scale>(k)); if (run_time) return arr((long)(one.min)().get_scaled_value(), (long)(one.max)().get_scaled_value(), (long)one.epsilon().get_scaled_value());
        using L = std::numeric_limits<F>; return arr((long)(L::min)().get_scaled_value(), (long)(L::max)().get_scaled_value(), (long)L::epsilon().get_scaled_value()); });
}
template <class Df> static void text(const Kind& k, long m) {
    record("text", arr(k, m), [&] { auto x = Df::type::from_format_value(m, scale_of<typename Df::scale>(k)); std::stringstream s; s << x; typename Df::type y(scale_of<typename Df::scale>(k)); s >> y; return js((long)y.get_scaled_value()); });
}
template <class Df> static void math(const Kind& k, long m, long sign) {
    record("math", arr(k, m, sign), [&] {
        auto sc = scale_of<typename Df::scale>(k); using F = typename Df::type; auto x = F::from_format_value(m, sc); auto z = F::from_format_value(0, sc), u = F::from_format_value(sign, sc);
        auto v = [&](const F& f) { F g = f; g = g + F::from_format_value(0, sc); F one(1, sc), w = g + 1; w -= one; return w == g ? (long)g.get_scaled_value() : -1999999999L; };   // and it is still of its kind
        return arr(v(floor(x)), v(ceil(x)), v(abs(x)), v(fabs(x)), v(copysign(x, u)), v(exp(z)), v(cos(z)));
    });
}
template <class Df> static void root(const Kind& k, long s, long e) {
    long S = lscale(k); if (s * s % S) return; long p = 1; for (long i = 0; i < e; ++i) p *= 10;
    record("root", arr(k, s, e), [&] { auto sc = scale_of<typename Df::scale>(k); using F = typename Df::type; return arr((long)sqrt(F::from_format_value(s * s / S, sc)).get_scaled_value(), (long)log10(F(p, sc)).get_scaled_value()); });
}
template <class Df> static void exchange(long radix, long m, long d, long n, long e, bool how) {
    record("exchange", arr(Raw{ arr(m, radix, d) }, Raw{ arr(n, radix, e) }), [&] {
        using F = typename Df::type; using S = typename Df::scale; F a = F::from_format_value(m, S(d)), b = F::from_format_value(n, S(e));
        if (how) a.swap(b); else std::swap(a, b);
        auto q = [](const F& f) { return rat(f.template convert_to<double>(), 4000); };
        auto A = q(a), B = q(b); a = b; auto C = q(a); F t(a); t += a; F u = a + 1;
        return arr(A, B, C, q(t), q(u));
    });
}
int main(int argc, char** argv) {
    begin(argc, argv);
    const bool th = opts().thorough; std::size_t salt = 0;
    for (auto& s : script()) { std::vector<Op> ops; for (std::size_t i = 1; i + 2 < s.size(); i += 3) ops.push_back({ { s[i], s[i + 1], s[i + 2] } }); run(s[0], ops, salt++); }
    Rng r = stream("c27");
    for (int i = 0, c = th ? 30000 : 1500; i < c; ++i) {
        int k = r.in(1, 9); const Kind& K = kinds[k]; long S = lscale(K); bool narrow = K.hi < BIG;
        // a plain integer model keeps the session inside its preconditions
        std::vector<Op> ops; long x = 0, y = 0; static const long ds[] = { 1, 1, 1, 2, 4, 8, 3 };
        auto mod = [](long a, long b) { return ((a % b) + b) % b; };
        auto fl = [&](long a, long b) { return (a - mod(a, b)) / b; };
        auto take = [&](long n, long d) { n *= S; long f = fl(n, d), w = 2 * mod(n, d); switch (K.rounding) { case 0: return w < d ? f : w > d ? f + 1 : f % 2 == 0 ? f : f + 1; case 1: return n / d; case 2: return f + (w != 0); default: return f; } };
        auto down = [&](long v) { return K.shift ? fl(v, S) : v / S; }; auto fits = [&](long v) { return K.lo <= v && v <= K.hi; };
        for (int j = r.in(3, 14), guard = 0; j > 0 && guard < 60; ++guard) {
            Op o{ { guard < 2 ? guard + 1 : r.in(1, 21), 0, 1 } }; bool amt = o[0] <= 2 || (o[0] >= 12 && o[0] <= 17); if (amt) { o[2] = ds[r.in(0, 6)]; o[1] = r.chance(8) && narrow ? r.in(-40000, 40000) : r.chance(10) ? r.in(-40, 40) * o[2] : r.in(-60, 60); }
            long v = amt ? take(o[1], o[2]) : 0, X = x, Y = y; bool checked = false;
            if (((o[0] == 6 || o[0] == 18) && y == 0) || (o[0] == 15 && v == 0) || (o[0] == 17 && x == 0)) continue;
            if (amt && !fits(v)) { ops.push_back(o); --j; continue; }
            switch (o[0]) { case 1: X = v; break; case 2: Y = v; break; case 3: X = x + y; break; case 4: X = x - y; break; case 5: X = down(x * y); checked = true; break; case 6: X = x * S / y; checked = true; break; case 7: X = -x; break; case 8: X = x + S; break; case 9: X = x - S; break; case 10: std::swap(X, Y); break; case 11: Y = x; break; case 12: X = x + v; break; case 13: X = x - v; break; case 14: X = down(x * v); checked = true; break; case 15: X = x * S / v; checked = true; break; case 16: X = v - x; break; case 17: X = v * S / x; checked = true; break; case 18: X = x % y; break; case 19: Y = 2 * y; break; case 20: Y = down(y * y); checked = true; break; case 21: X = std::labs(x); break; }
            if (!fits(X) || !fits(Y)) { if (!checked) continue; ops.push_back(o); --j; continue; }
            if (std::labs(X) > 40000 || std::labs(Y) > 40000) continue;
            ops.push_back(o); --j; x = X; y = Y;
        }
        run(k, ops, r.in(0, 20));
        long m = r.in(-3000, 3000), n = r.chance(30) ? (m + r.in(-1, 1)) : r.in(-400, 400), d = r.chance(50) ? 1 : r.chance(50) ? 4 : 3;
        int how = r.in(0, 3);
        compare<K1>(kinds[1], m, n, d, how); compare<K2>(kinds[2], m, n, d, how); compare<K3>(kinds[3], m, n, d, how); compare<K4>(kinds[4], m, n, d, how); compare<K5>(kinds[5], m, n, d, how); compare<K6>(kinds[6], m, n % 300, d, how); compare<K9>(kinds[9], m, n, d, how);
        // between kinds: binary fractions, so that halves are halves; decimals to more digits, or not half-way
        conv<K3, K9>(kinds[3], kinds[9], m, how % 2); conv<K5, K7>(kinds[5], kinds[7], m, how % 2); conv<K3, K5>(kinds[3], kinds[5], m, how % 2); conv<K9, K7>(kinds[9], kinds[7], m * r.in(1, 30), how % 2); conv<K7, K3>(kinds[7], kinds[3], m, how % 2); conv<K5, K3>(kinds[5], kinds[3], m, how % 2);
        conv<K1, K4>(kinds[1], kinds[4], m, how % 2); conv<K3, K4>(kinds[3], kinds[4], m, how % 2); if (m % 10 != 5 && m % 10 != -5) conv<K4, K1>(kinds[4], kinds[1], m, how % 2); conv<K1, K6>(kinds[1], kinds[6], m * r.in(1, 20), how % 2);
        math<K1>(kinds[1], m, n); math<K2>(kinds[2], m, n); math<K3>(kinds[3], m, n); math<K4>(kinds[4], m, n); math<K5>(kinds[5], m, n); math<K6>(kinds[6], m, n); math<K7>(kinds[7], m, n); math<K8>(kinds[8], m, n); math<K9>(kinds[9], m, n);
        { long s = r.in(0, 40) * 10, e = r.in(0, 3); root<K1>(kinds[1], s, e); root<K3>(kinds[3], s / 10 * 4, e); root<K4>(kinds[4], s * 10, e); root<K5>(kinds[5], s / 10 * 4, e); root<K7>(kinds[7], s / 10 * 2, e); root<K6>(kinds[6], s, 2); }
        exchange<K4>(10, m, r.in(0, 3), n, r.in(0, 3), how % 2); exchange<K5>(2, m, r.in(0, 8), n, r.in(0, 8), how % 2);
        text<K1>(kinds[1], m * r.in(1, 100000)); text<K4>(kinds[4], m * r.in(1, 100000)); text<K1>(kinds[1], m); text<K4>(kinds[4], m * 7); text<K8>(kinds[2], m); text<K3>(kinds[3], m); text<K5>(kinds[5], m);
    }
    if (opts().shard == 0) { Kind k6 = kinds[6], k7 = kinds[7]; limits<K6>(k6, false); limits<K7>(k7, false); limits<K6>(k6, true); limits<K7>(k7, true); }
    return end();
}
