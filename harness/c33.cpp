// C33: memoized functions
#include "vh.hpp"
#include <geometrix/utility/memoize.hpp>
#include <deque>
#include <map>
#include <functional>
#include <stdexcept>
using namespace vh;
namespace gx { using namespace geometrix; }
using Op = std::array<long, 4>;
// kinds of argument: how a number becomes one and back
template <class T> struct As { static T to(long v) { return T(v); } static long from(const T& v) { return long(v); } };
template <> struct As<std::string> { static std::string to(long v) { return std::string(30, 'k') + std::to_string(v); } static long from(const std::string& v) { return std::stol(v.substr(30)); } };
// the order of the table may be any
struct Odd { template <class T> bool operator()(const T& a, const T& b) const { return std::make_tuple(std::get<1>(b), std::get<0>(a)) < std::make_tuple(std::get<1>(a), std::get<0>(b)); } };
template <class A, class B, class PA, class PB, class Less, int How> static void session(const std::vector<Op>& ops) {
    record("session", arr(ops), [&] {
        using Key = std::tuple<A, B>; using Table = std::map<Key, long, Less>; using Fn = std::function<long(PA, PB)>;
        Table t[2]; Fn f[3]; std::deque<Fn> selves; long bias = 0, evals = 0;
        auto make = [&](Fn& to, Table& table, long kind) {
            auto one = [&](PA x, PB y) -> long { ++evals; long i = As<A>::from(x), j = As<B>::from(y); if (i < 0) throw std::domain_error("negative"); return 10 * i + j + bias; };
            // the recursive kind asks a function of its own over the same table
            selves.emplace_back(); Fn* self = &selves.back();
            auto two = [&evals, &bias, self](PA x, PB y) -> long { ++evals; long i = As<A>::from(x), j = As<B>::from(y); if (i < 0) throw std::domain_error("negative"); return i == 0 ? j + bias : (*self)(As<A>::to(i - 1), y) + 1; };
            if (kind == 1) { if (How) to = gx::memoize(table, Fn(one)); else to = gx::memoize(table, one); }
            else { if (How) *self = gx::memoize(table, Fn(two)); else *self = gx::memoize(table, two); to = *self; }
        };
        make(f[0], t[0], 1); make(f[1], t[0], 2); make(f[2], t[1], 2);
        std::vector<Raw> out;
        auto key = [](const Op& o) { return Key(As<A>::to(o[2]), As<B>::to(o[3])); };
        for (auto& o : ops) {
            long got = 0, a = o[1] - 1;
            switch (o[0]) {
            case 1: { A x = As<A>::to(o[2]); B y = As<B>::to(o[3]); try { got = f[a](x, y); } catch (const std::domain_error&) { got = -777; } if (x != As<A>::to(o[2]) || y != As<B>::to(o[3])) got = -778; break; }
            case 2: t[a].clear(); break;
            case 3: t[a].erase(key(o)); break;
            case 4: t[a][key(o)] = 1000; break;
            case 5: { Fn c(f[o[2] - 1]); f[a] = c; break; }
            case 6: make(f[a], t[o[2] - 1], o[3]); break;
            case 7: bias += o[1]; break;
            }
            out.push_back(Raw{ arr(got, evals, long(t[0].size()), long(t[1].size())) });
        }
        std::vector<Raw> c[2]; for (int i = 0; i < 2; ++i) for (auto& e : t[i]) c[i].push_back(Raw{ arr(As<A>::from(std::get<0>(e.first)), As<B>::from(std::get<1>(e.first)), e.second) });
        out.push_back(Raw{ arr(Raw{ js(c[0]) }, Raw{ js(c[1]) }) });
        return js(out);
    });
}
static void run(const std::vector<Op>& ops, std::size_t salt) {
    using K1 = std::tuple<int, int>; using K2 = std::tuple<int, double>; using K3 = std::tuple<std::string, long>; using K4 = std::tuple<int, std::string>;
    switch (salt % 6) {
    case 0: session<int, int, int, int, std::less<K1>, 0>(ops); break;
    case 1: session<int, double, int, double, std::greater<K2>, 1>(ops); break;
    case 2: session<std::string, long, const std::string&, long, std::less<K3>, 0>(ops); break;
    case 3: session<int, std::string, int, std::string, std::greater<K4>, 0>(ops); break;
    case 4: session<int, int, const int&, int, Odd, 1>(ops); break;
    default: session<int, std::string, int, const std::string&, Odd, 1>(ops);
    }
}
int main(int argc, char** argv) {
    begin(argc, argv);
    const bool th = opts().thorough; std::size_t salt = 0;
    for (auto& s : script()) { std::vector<Op> ops; for (std::size_t i = 0; i + 3 < s.size(); i += 4) ops.push_back({ { s[i], s[i + 1], s[i + 2], s[i + 3] } }); run(ops, salt++); }
    Rng r = stream("c33");
    for (int n = 0, c = th ? 20000 : 1500; n < c; ++n) {
        std::vector<Op> ops; int span = r.chance(50) ? 3 : 12;
        for (int j = r.in(5, 50); j > 0; --j) {
            Op o{ { r.chance(60) ? 1 : r.in(1, 7), r.in(1, 3), r.in(-1, span), r.in(-2, span / 3) } };
            switch (o[0]) { case 2: case 3: case 4: o[1] = r.in(1, 2); if (o[0] == 2) o[2] = o[3] = 0; break; case 5: o[2] = r.in(1, 3); break; case 6: o[2] = r.in(1, 2); o[3] = r.in(1, 2); break; case 7: o[1] = r.in(-5, 9); }
            ops.push_back(o);
        }
        run(ops, n);
    }
    return end();
}
