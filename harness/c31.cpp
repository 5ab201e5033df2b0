// C31: tagged quantities
#include "vh.hpp"
#include <geometrix/utility/tagged_quantity.hpp>
#include <geometrix/numeric/constants.hpp>
#include <tuple>
using namespace vh;
namespace gx { using namespace geometrix; }
using Op = std::array<long, 3>;
GEOMETRIX_STRONG_TYPEDEF(double, Depth); GEOMETRIX_STRONG_TYPEDEF(double, Height);
struct LenTag; struct TimeTag;
template <class T> using Len = gx::tagged_quantity<LenTag, T>; template <class T> using Tim = gx::tagged_quantity<TimeTag, T>;
static const double U = 16;
static long un(double v) { double x = v * U; return x == std::floor(x) && std::fabs(x) < 2e9 ? (long)x : -1999999999L; }
template <class A, class B> static std::string order(const A& a, const B& b) { return arr(a < b, a <= b, a == b, a != b, a >= b, a > b); }
template <class T> static double val(const Len<T>& q) { return q.value(); }
template <class T> static void make(Len<T>& q, double v) { q = Len<T>(T(v)); }
template <class T, class V> static void make(Len<T>& q, const Len<V>& v) { Len<T> c(v); q = c; }
static double whole(const Len<double>& q, std::false_type) { using std::floor; return floor(q).value(); }
static double whole(const Len<double>& q, std::true_type) { using std::ceil; return ceil(q).value(); }
template <class T, class B> static T whole(const Len<T>& q, B) { return q.value(); }
template <class I, class R> static void session(const std::vector<Op>& ops, std::size_t salt) {
    record("session", arr(ops), [&] {
        Len<I> i(I(3)); Len<R> d(R(2.5)), e{ R(-0.5) }; R w = 4; std::vector<Raw> out; std::size_t n = salt;
        // calls g with the register: by its own type, so that every pair of types meets
        auto from = [&](long m, auto g) { switch (m) { case 1: g(i); break; case 2: g(d); break; case 3: g(e); break; default: g(w); } };
        auto to = [&](long k, auto g) { switch (k) { case 1: g(i); break; case 2: g(d); break; default: g(e); } };
        for (auto& o : ops) {
            bool other = ++n % 2, third = (n / 2) % 2;
            switch (o[0]) {
            case 1: to(o[1], [&](auto& q) { using Q = std::decay_t<decltype(q)>; R v = R(o[2] / U); if (other) q = v; else q = Q(typename Q::value_type(v)); }); break;
            case 2: to(o[1], [&](auto& q) { from(o[2], [&](auto& v) { make(q, v); }); }); break;
            case 3: to(o[1], [&](auto& q) { from(o[2], [&](auto& v) { const auto& c = v; if (other) q = c; else { auto& back = (q = v); if (&back != &q) q = R(999); } }); }); break;
            case 4: to(o[1], [&](auto& q) { from(o[2], [&](auto& v) { q += v; }); }); break;
            case 5: to(o[1], [&](auto& q) { from(o[2], [&](auto& v) { q -= v; }); }); break;
            case 6: to(o[1], [&](auto& q) { from(o[2], [&](auto& v) { q *= v; }); }); break;
            case 7: to(o[1], [&](auto& q) { from(o[2], [&](auto& v) { q /= v; }); }); break;
            case 8: to(o[1], [&](auto& q) { from(o[2], [&](auto& v) { q = q + v; }); }); break;
            case 9: to(o[1], [&](auto& q) { from(o[2], [&](auto& v) { q = q - v; }); }); break;
            case 10: to(o[1], [&](auto& q) { from(o[2], [&](auto& v) { q = (q * v).value(); }); }); break;
            case 11: to(o[1], [&](auto& q) { from(o[2], [&](auto& v) { q = (q / v).value(); }); }); break;
            case 12: to(o[1], [&](auto& q) { from(o[2], [&](auto& v) { q = v + q; }); }); break;
            case 13: to(o[1], [&](auto& q) { from(o[2], [&](auto& v) { q = v - q; }); }); break;
            case 14: to(o[1], [&](auto& q) { from(o[2], [&](auto& v) { q = (v * q).value(); }); }); break;
            case 15: to(o[1], [&](auto& q) { from(o[2], [&](auto& v) { q = (v / q).value(); }); }); break;
            case 16: if (o[2] == 4) (o[1] == 2 ? d : e).swap(w); else if (third) std::swap(o[1] == 2 ? d : e, o[1] == 2 ? e : d); else if (o[1] == 2) d.swap(e); else e.swap(d); break;
            case 17: to(o[1], [&](auto& q) { q = -q; }); break;
            case 18: to(o[1], [&](auto& q) { q = +q; }); break;
            case 19: to(o[1], [&](auto& q) { w = q.value(); }); break;
            case 20: to(o[1], [&](auto& q) { using std::abs; q = abs(q).value(); }); break;
            case 21: to(o[1], [&](auto& q) { q = whole(q, std::false_type()); }); break;
            case 22: to(o[1], [&](auto& q) { q = whole(q, std::true_type()); }); break;
            }
            out.push_back(Raw{ arr(Raw{ arr(un(val(i)), un(val(d)), un(val(e)), un(w)) }, Raw{ order(d, e) }, Raw{ order(d, w) }, Raw{ order(w, e) }, Raw{ order(i, d) }, Raw{ arr(i ? true : false, bool(d)) }) });
        }
        return js(out);
    });
}
static void run(const std::vector<Op>& ops, std::size_t salt) { switch (salt % 3) { case 0: session<int, double>(ops, salt); break; case 1: session<long, double>(ops, salt); break; default: session<int, double>(ops, salt / 3); } }
template <class T> static void powers(long b, long e) {
    record("pow", arr(b, e), [&] { using std::pow; Len<T> x{ T(b) }; Len<T> y{ T(e) }; Tim<T> z{ T(e) }; return arr(rat(pow(x, y).value()), rat(pow(x, T(e)).value()), rat(pow(T(b), y).value()), rat(pow(x, z).value()), rat(gx::pow(x, y).value())); });
}
static std::string dir(double t) { return arr(rat(std::sin(t)), rat(std::cos(t))); }
static void trig(long x, long y, long rho) {
    record("trig", arr(x, y, rho), [&] {
        using std::sin; using std::cos; using std::tan; using std::asin; using std::acos; using std::atan; using std::sqrt; using std::exp; using std::log; using std::log10; using std::atan2; using std::pow;
        double t = std::atan2(double(y), double(x)); Len<double> a(t), s(double(y) / rho), c(double(x) / rho), g(double(y) / x), q(double(rho) * rho), X{ double(x) }, Y{ double(y) }, h{ double(rho) }; Tim<double> Z{ double(x) };
        return arr(rat(sin(a).value()), rat(cos(a).value()), rat(tan(a).value()), rat(std::sin(asin(s).value())), rat(std::cos(acos(c).value())), rat(std::tan(atan(g).value())),
            rat(sqrt(q).value()), rat(log10(Len<double>(std::pow(10.0, double(y)))).value()), rat(exp(log(h)).value()),
            Raw{ dir(atan2(Y, X).value()) }, Raw{ dir(atan2(Y, double(x)).value()) }, Raw{ dir(atan2(double(y), X).value()) }, Raw{ dir(atan2(Y, Z).value()) });
    });
}
static void mixed(long a, long b) {
    record("mixed", arr(a, b), [&] {
        Depth p(a / U); Height q(b / U); Len<float> f(float(a / U)); Tim<double> g(b / U); Len<double> h(b / U);
        std::tuple<Depth, Height> t; std::tie(p, q) = std::make_tuple(Depth(a / U), Height(b / U));
        auto four = [](auto x, auto y) { return Raw{ arr(rat((x + y).value()), rat((x - y).value()), rat((x * y).value()), rat(double((x / y).value()), 4000)) }; };
        return arr(four(p, q), four(p, g), four(Depth(gx::construct<Depth>(a / U)), h), four(p, b / U), four(a / U, q), four(Len<double>(f), g));
    });
}
int main(int argc, char** argv) {
    begin(argc, argv);
    const bool th = opts().thorough; std::size_t salt = 0;
    for (auto& s : script()) { std::vector<Op> ops; for (std::size_t i = 0; i + 2 < s.size(); i += 3) ops.push_back({ { s[i], s[i + 1], s[i + 2] } }); run(ops, salt++); }
    Rng r = stream("c31");
    for (int n = 0, c = th ? 20000 : 1500; n < c; ++n) {
        std::vector<Op> ops; long s[5] = { 0, 48, 40, -8, 64 };
        auto td = [](long a, long b) { return a / b; };
        for (int j = r.in(3, 12), guard = 0; j > 0 && guard < 80; ++guard) {
            Op o{ { r.in(1, 22), r.in(1, 3), r.in(1, 4) } }; long k = o[1];
            if (o[0] == 1) o[2] = r.in(-80, 80); else if (o[0] == 16) { o[1] = k = r.in(2, 3); o[2] = r.chance(50) ? 4 : 5 - k; } else if (o[0] >= 17) o[2] = k;
            long a = s[k], b = o[0] == 1 ? 0 : s[o[2]], num = 0, den = 1; bool first = o[0] >= 4 && o[0] <= 7 && k == 1 && o[2] == 4, ints = k == 1 && (o[2] == 1 || first); if (first) b = 16 * td(b, 16);
            auto bin = [&](long f, long x, long y) { if (f == 0) num = x + y; else if (f == 1) num = x - y; else if (f == 2) { num = x * y; den = 16; } else if (y == 0) return false; else if (ints) num = 16 * td(x, y); else { num = (y < 0 ? -x : x) * 16; den = std::labs(y); } return true; };
            if (o[0] == 1) num = o[2]; else if (o[0] <= 3 || o[0] == 16) num = b; else if (o[0] <= 7) { if (!bin(o[0] - 4, a, b)) continue; } else if (o[0] <= 11) { if (!bin(o[0] - 8, a, b)) continue; } else if (o[0] <= 15) { if (!bin(o[0] - 12, b, a)) continue; }
            else num = o[0] == 17 ? -a : o[0] <= 19 ? a : o[0] == 20 ? std::labs(a) : o[0] == 21 ? 16 * (long)std::floor(a / 16.0) : 16 * (long)std::ceil(a / 16.0);
            if (k != 1 && num % den) continue; if (std::labs(num / den) > 20000) continue;
            if (o[0] == 16) std::swap(s[k], s[o[2]]); else if (o[0] == 19) s[4] = a; else s[k] = k == 1 ? 16 * td(num, den * 16) : num / den;
            ops.push_back(o); --j;
        }
        run(ops, r.in(0, 100));
        powers<double>(r.in(-6, 6) | 1, r.in(0, 6)); powers<float>(r.in(1, 5), r.in(0, 4));
        static const long py[][3] = { { 3, 4, 5 }, { 5, 12, 13 }, { 8, 15, 17 }, { 4, 3, 5 }, { 1, 0, 1 }, { 12, 5, 13 }, { 7, 24, 25 } };
        auto& p = py[r.in(0, 6)]; trig((r.chance(50) ? 1 : -1) * p[0], (r.chance(50) ? 1 : -1) * p[1], p[2]);
        long b = r.in(-60, 60); mixed(r.in(-200, 200), b ? b : 7);
    }
    return end();
}
