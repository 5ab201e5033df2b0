// C32: random draws, counts and colours
#include "vh.hpp"
#include <boost/range.hpp>
#include <boost/range/iterator_range.hpp>
#include <geometrix/utility/random_generator.hpp>
#include <geometrix/utility/golden_ratio_color_generator.hpp>
#include <memory>
#include <list>
using namespace vh;
namespace gx { using namespace geometrix; }
using Op = std::array<long, 4>;
template <int Kind, class E> struct Gen;
template <class E> struct Gen<1, E> {
    using type = gx::random_index_generator<E>;
    static std::unique_ptr<type> make(long m, long s) { return std::make_unique<type>(std::size_t(m), (unsigned long)s); }
    static std::unique_ptr<type> from(long m, const E& e) { return std::make_unique<type>(std::size_t(m), e); }
    static std::string draw(const type& g, long, long) { return js(long(g())); }
    static std::string pick(const type& g, long, long m) {
        std::vector<int> v(m + 1); for (long i = 0; i <= m; ++i) v[i] = int(i);      // one more, so that a wrong choice is still inside
        std::list<int> l(v.begin(), v.end());
        if (m % 2) { auto r = boost::make_iterator_range(v.data(), v.data() + m); return js(long(*gx::random_element(r, g))); }
        auto r = boost::make_iterator_range(l.begin(), std::next(l.begin(), m)); return js(long(*gx::random_element(r, g)));
    }
};
template <class E> struct Gen<2, E> {
    using type = gx::random_real_generator<E>;
    static std::unique_ptr<type> make(long m, long s) { return std::make_unique<type>(double(m), (unsigned long)s); }
    static std::unique_ptr<type> from(long m, const E&, long s) { return make(m, s); }
    static std::string draw(const type& g, long, long m) { double v = g(); std::uint64_t b; std::memcpy(&b, &v, 8); return arr(long(std::floor(v / m * 1048576)), long(b & 0x3fffff), long(b >> 22 & 0x3fffff), long(b >> 44)); }
    static std::string pick(const type& g, long a, long m) { return draw(g, a, m); }
};
template <class E> struct Gen<3, E> {
    using type = gx::random_integer_generator<E>;
    static std::unique_ptr<type> make(long, long s) { return std::make_unique<type>((unsigned long)s); }
    static std::string draw(const type& g, long a, long) { return js(long(g(a))); }
    static std::string pick(const type& g, long a, long m) { return draw(g, a, m); }
};
template <class E> static std::unique_ptr<gx::random_index_generator<E>> fromEngine(long m, long s, std::integral_constant<int, 1>) { E e; e.seed((unsigned)s); return Gen<1, E>::from(m, e); }
template <class E, int K> static auto fromEngine(long m, long s, std::integral_constant<int, K>) { return Gen<K, E>::make(m, s); }
// assigned: by hand, through a copy, where the kind has no assignment
template <class G> static auto assign(std::unique_ptr<G>& a, const G& b, int) -> decltype(*a = b, void()) { *a = b; }
template <class G> static void assign(std::unique_ptr<G>& a, const G& b, long) { auto c = std::make_unique<G>(b); a = std::move(c); }
template <int Kind, class E> static void session(const std::vector<Op>& ops) {
    record("draws", arr(Kind, ops), [&] {
        using G = Gen<Kind, E>; std::unique_ptr<typename G::type> g[3]; long lim[3] = { 1, 2, 3 };
        g[0] = G::make(1, 1); g[1] = G::make(2, 1); g[2] = G::make(3, 2);
        std::vector<Raw> out;
        for (auto& o : ops) {
            long k = o[1] - 1; std::string r = "0";
            switch (o[0]) {
            case 1: g[k] = G::make(o[2], o[3]); lim[k] = o[2]; break;
            case 2: { auto c = std::make_unique<typename G::type>(*g[o[2] - 1]); g[k] = std::move(c); lim[k] = lim[o[2] - 1]; break; }
            case 3: r = G::draw(*g[k], o[2], lim[k]); break;
            case 4: g[k]->seed((unsigned long)o[2]); break;
            case 5: g[k] = fromEngine<E>(o[2], o[3], std::integral_constant<int, Kind>()); lim[k] = o[2]; break;
            case 6: assign(g[k], *g[o[2] - 1], 0); lim[k] = lim[o[2] - 1]; break;
            case 7: r = G::pick(*g[k], o[2], lim[k]); break;
            }
            out.push_back(Raw{ r });
        }
        return js(out);
    });
}
static void run(const std::vector<Op>& ops, std::size_t salt) {
    switch (salt % 7) {
    case 0: session<1, boost::mt19937>(ops); break; case 1: session<2, boost::mt19937>(ops); break; case 2: session<3, boost::mt19937>(ops); break;
    case 3: session<1, boost::minstd_rand>(ops); break; case 4: session<2, boost::minstd_rand>(ops); break; case 5: session<3, boost::taus88>(ops); break;
    default: session<1, boost::taus88>(ops);
    }
}
template <class G, class D> static void spread(long m, const G& g, D draw) { record("spread", arr(m), [&] { std::vector<long> v; for (long i = 0; i < 60 * m; ++i) v.push_back(draw(g)); return js(v); }); }
template <class T> static void count(long init, const std::vector<Op>& ops) {
    record("count", arr(init, ops), [&] {
        std::unique_ptr<gx::sequence_generator<T>> g[3]; for (int i = 0; i < 3; ++i) g[i] = std::make_unique<gx::sequence_generator<T>>(T(init + i));
        std::vector<long> out;
        for (auto& o : ops) { long r = 0; if (o[0] == 2) { if (o[3]) *g[o[1] - 1] = *g[o[2] - 1]; else g[o[1] - 1] = std::make_unique<gx::sequence_generator<T>>(*g[o[2] - 1]); } else { const auto& c = *g[o[1] - 1]; r = long(c()); } out.push_back(r); }
        return js(out);
    });
}
static Raw colour(const gx::argb_tuple& c) { return Raw{ arr(long(std::get<gx::argb::Alpha>(c)), long(std::get<gx::argb::Red>(c)), long(std::get<gx::argb::Green>(c)), long(std::get<gx::argb::Blue>(c))) }; }
int main(int argc, char** argv) {
    begin(argc, argv);
    const bool th = opts().thorough; std::size_t salt = 0;
    for (auto& s : script()) { std::vector<Op> ops; for (std::size_t i = 0; i + 3 < s.size(); i += 4) ops.push_back({ { s[i], s[i + 1], s[i + 2], s[i + 3] } }); run(ops, salt++); }
    Rng r = stream("c32");
    for (int n = 0, c = th ? 20000 : 1500; n < c; ++n) {
        std::vector<Op> ops, cs; long most = r.chance(50) ? 4 : 200, seeds = r.in(1, 3);
        for (int j = r.in(5, 40); j > 0; --j) {
            Op o{ { r.in(1, 7), r.in(1, 3), 0, 0 } }; if (r.chance(40)) o[0] = 3;
            switch (o[0]) { case 1: case 5: o[2] = r.in(1, most); o[3] = r.in(1, seeds); break; case 2: case 6: o[2] = r.in(1, 3); break; case 4: o[2] = r.in(1, seeds); break; default: o[2] = r.in(1, most); }
            ops.push_back(o);
            cs.push_back({ { r.chance(25) ? 2 : 3, r.in(1, 3), r.in(1, 3), r.in(0, 1) } });
        }
        run(ops, n);
        long init = r.in(-40, 40); switch (n % 3) { case 0: count<long>(init, cs); break; case 1: count<double>(init, cs); break; default: count<signed char>(init, cs); }
        if (n % 10 == 0) {
            long m = r.in(1, 12); unsigned long s = r.in(1, 1000);
            spread(m, gx::random_index_generator<boost::mt19937>(m, s), [](const auto& g) { return long(g()); });
            spread(m, gx::random_integer_generator<>(s), [m](const auto& g) { return long(g(m)); });
            spread(m, gx::random_real_generator<>(double(m), s), [](const auto& g) { return long(std::floor(g())); });
            spread(m, gx::random_real_generator<>(1.0, s), [m](const auto& g) { return long(std::floor(g() * m)); });
        }
        if (n % 10 == 1) {
            long a = r.in(0, 40), m = r.in(0, 60), b = r.in(0, 16), v = r.in(0, 16);
            record("colors", arr(a, m, b, v), [&] { std::vector<Raw> p, q; for (auto& x : gx::generate_colors(a, b / 16.0, v / 16.0)) p.push_back(colour(x)); for (auto& x : gx::generate_colors(m, b / 16.0, v / 16.0)) q.push_back(colour(x)); return arr(Raw{ js(p) }, Raw{ js(q) }); });
        }
    }
    for (long a = 0; a <= 64; ++a) for (long b = 0; b <= 16; b += th ? 1 : 3) for (long c = 0; c <= 16; c += th ? 1 : 4)
        record("hsv", arr(a, b, c), [&] { return colour(gx::hsv2rgb(a / 64.0f, b / 16.0f, c / 16.0f)).s; });
    return end();
}
