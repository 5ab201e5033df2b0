// Common driver support: deterministic RNG, sharding, exact rational output,
// ndjson trace records, crash/assert capture.  Every driver only calls the
// public API of the headers under /repo; nothing here knows how they work.
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <array>
#include <set>
#include <map>
#include <tuple>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace vh {

// ---------------------------------------------------------------- options
struct Opts {
    int shard = 0, shards = 1;
    bool thorough = false;
    std::uint64_t seed = 1;
    std::string out = "trace.ndjson";
    std::string script;
    std::string only;   // restrict to one group of cases (debugging aid)
};
inline Opts& opts() { static Opts o; return o; }
inline void parse(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--shard") opts().shard = std::atoi(v.c_str());
        else if (k == "--shards") opts().shards = std::atoi(v.c_str());
        else if (k == "--tier") opts().thorough = (v == "thorough");
        else if (k == "--seed") opts().seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--out") opts().out = v;
        else if (k == "--script") opts().script = v;
        else if (k == "--only") opts().only = v;
    }
}

// ---------------------------------------------------------------- RNG
struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t x) : s(x) { next(); next(); }
    std::uint64_t next() {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    int in(int lo, int hi) { return lo + int(next() % std::uint64_t(hi - lo + 1)); }
    bool chance(int pct) { return in(0, 99) < pct; }
    template <class V> auto pick(const V& v) -> decltype(v[0]) { return v[next() % v.size()]; }
    template <class V> void shuffle(V& v) { for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]); }
};
inline std::uint64_t hash_str(const char* s) { std::uint64_t h = 1469598103934665603ULL; for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ULL; return h; }
// independent stream per (seed, shard, label)
inline std::uint64_t mix(std::uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
inline Rng stream(const char* label) { return Rng(mix(mix(mix(opts().seed + 0x51ED27ULL) + std::uint64_t(opts().shard) + 1) ^ hash_str(label))); }

// ---------------------------------------------------------------- exact integer geometry used only for *generating* inputs
struct P { long x = 0, y = 0; bool operator==(P o) const { return x == o.x && y == o.y; } bool operator!=(P o) const { return !(*this == o); } bool operator<(P o) const { return x != o.x ? x < o.x : y < o.y; } };
inline long cross(P o, P a, P b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); }
inline long dot(P o, P a, P b) { return (a.x - o.x) * (b.x - o.x) + (a.y - o.y) * (b.y - o.y); }
inline int sgn(long v) { return (v > 0) - (v < 0); }
inline bool on_seg(P a, P b, P p) { return cross(a, b, p) == 0 && dot(p, a, b) <= 0; }
inline bool seg_touch(P a, P b, P c, P d) {
    if (on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b)) return true;
    return sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 && sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0;
}
inline long area2(const std::vector<P>& v) { long s = 0; for (std::size_t i = 0, n = v.size(); i < n; ++i) { P a = v[i], b = v[(i + 1) % n]; s += a.x * b.y - a.y * b.x; } return s; }
// strictly simple polygon: distinct vertices, non-adjacent edges disjoint, adjacent edges share only the vertex
inline bool simple(const std::vector<P>& v, bool allow_straight = true) {
    std::size_t n = v.size();
    if (n < 3) return false;
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = i + 1; j < n; ++j) if (v[i] == v[j]) return false;
    for (std::size_t i = 0; i < n; ++i) {
        P a = v[i], b = v[(i + 1) % n], c = v[(i + 2) % n];
        long cr = cross(a, b, c);
        if (cr == 0) { if (!allow_straight) return false; if (dot(b, a, c) >= 0) return false; }
        for (std::size_t j = i + 2; j < n; ++j) {
            if (i == 0 && j == n - 1) continue;
            if (seg_touch(a, b, v[j], v[(j + 1) % n])) return false;
        }
    }
    return area2(v) != 0;
}
inline bool convex_strict(const std::vector<P>& v) { std::size_t n = v.size(); if (n < 3) return false; int s = 0; for (std::size_t i = 0; i < n; ++i) { int t = sgn(cross(v[i], v[(i + 1) % n], v[(i + 2) % n])); if (t == 0 || (s && t != s)) return false; s = t; } return simple(v, false); }
inline std::vector<P> hull(std::vector<P> p) {
    std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
    if (p.size() < 3) return p;
    std::vector<P> h(2 * p.size()); std::size_t k = 0;
    for (std::size_t i = 0; i < p.size(); ++i) { while (k >= 2 && cross(h[k - 2], h[k - 1], p[i]) <= 0) --k; h[k++] = p[i]; }
    for (std::size_t i = p.size() - 1, t = k + 1; i-- > 0;) { while (k >= t && cross(h[k - 2], h[k - 1], p[i]) <= 0) --k; h[k++] = p[i]; }
    h.resize(k - 1); return h;
}
inline P rnd_pt(Rng& g, int lo, int hi) { P p; p.x = g.in(lo, hi); p.y = g.in(lo, hi); return p; }
// random simple polygon with n vertices (2-opt untangling of a random tour; retries)
inline std::vector<P> rnd_simple(Rng& g, int n, int lo, int hi, bool allow_straight = true) {
    for (int tries = 0; tries < 2000; ++tries) {
        std::vector<P> v; std::set<P> s;
        int guard = 0;
        while ((int)v.size() < n && guard++ < 1000) { P p = rnd_pt(g, lo, hi); if (s.insert(p).second) v.push_back(p); }
        if ((int)v.size() < n) { --n; continue; }
        for (int it = 0; it < 200; ++it) {
            bool ch = false;
            for (int i = 0; i < n && !ch; ++i) for (int j = i + 1; j < n && !ch; ++j) {
                if ((j + 1) % n == i || i + 1 == j) continue;
                if (seg_touch(v[i], v[(i + 1) % n], v[j], v[(j + 1) % n])) { std::reverse(v.begin() + i + 1, v.begin() + j + 1); ch = true; }
            }
            if (!ch) break;
        }
        if (simple(v, allow_straight)) { if (g.chance(50)) std::reverse(v.begin(), v.end()); std::rotate(v.begin(), v.begin() + g.in(0, n - 1), v.end()); return v; }
    }
    return { { lo, lo }, { hi, lo }, { lo, hi } };
}
// o, b, c far apart with a very small turn at o->b->c (cross product -2..2, mostly -1, 0, 1)
inline void rnd_thin(Rng& g, P& o, P& b, P& c, long lim = 9000) {
    P u{ 1, 0 }, v{ 0, 1 }; long stop = g.in((int)(lim / 4), (int)lim);
    for (;;) { int m = g.in(1, 9); P w = g.chance(50) ? (u = { u.x + m * v.x, u.y + m * v.y }) : (v = { v.x + m * u.x, v.y + m * u.y }); if (w.x > lim || w.y > lim) { if (g.chance(50)) { o = b = c = { 0, 0 }; u = { 1, 0 }; v = { 0, 1 }; continue; } } if (std::max(std::max(u.x, u.y), std::max(v.x, v.y)) > stop) break; }
    auto clip = [&](P w) { while (std::abs(w.x) > lim || std::abs(w.y) > lim) w = { w.x / 2, w.y / 2 }; return w; };
    int k = g.in(0, 5); P w = k < 3 ? v : k == 3 ? P{ 2 * v.x, 2 * v.y } : k == 4 ? P{ v.x + u.x, v.y + u.y } : P{ u.x, u.y };
    u = clip(u); w = clip(w); if (k == 5) { if (u.x == 0 && u.y == 0) u = { 1, 1 }; w = u; int m = g.in(1, 3), n = g.in(-2, 3); P e{ u.x / 3, u.y / 3 }; u = { m * e.x, m * e.y }; w = { n * e.x, n * e.y }; }
    if (g.chance(50)) { u.x = -u.x; w.x = -w.x; } if (g.chance(50)) { u.y = -u.y; w.y = -w.y; } if (g.chance(50)) std::swap(u, w);
    if (u.x == 0 && u.y == 0) u = { 1, 0 };
    o = rnd_pt(g, -100, 100); b = { o.x + u.x, o.y + u.y }; c = { o.x + w.x, o.y + w.y };
}
inline std::vector<P> rnd_convex(Rng& g, int pts, int lo, int hi) { for (;;) { std::vector<P> v; for (int i = 0; i < pts; ++i) v.push_back(rnd_pt(g, lo, hi)); v = hull(v); if (v.size() >= 3) return v; } }
// convex polygon with 2n corners: n directions and their opposites
inline std::vector<P> rnd_zonogon(Rng& g, int n, int R) {
    std::vector<P> d; int t = 0;
    while ((int)d.size() < n && t++ < 50 * n) { P v = rnd_pt(g, -R, R); if (v.y < 0 || (v.y == 0 && v.x <= 0)) continue; bool dup = false; for (P q : d) dup = dup || q.x * v.y == q.y * v.x; if (!dup) d.push_back(v); }
    std::sort(d.begin(), d.end(), [](P a, P b) { return a.x * b.y - a.y * b.x > 0; });
    std::vector<P> v; P c{ 0, 0 }; for (int s : { 1, -1 }) for (P e : d) { v.push_back(c); c.x += s * e.x; c.y += s * e.y; }
    P m = v[d.size()]; for (auto& p : v) { p.x -= m.x / 2; p.y -= m.y / 2; }
    return v;
}
// star-shaped polygon with up to n corners around a centre
inline std::vector<P> rnd_star(Rng& g, int n, int R) {
    for (;;) {
        P c = rnd_pt(g, -R / 4, R / 4); std::vector<P> v; int lo = g.in(0, R / 2);
        for (int k = 0; k < 3 * n && (int)v.size() < n; ++k) { P p = rnd_pt(g, -R, R); long dx = p.x - c.x, dy = p.y - c.y; if (dx * dx + dy * dy <= (long)lo * lo || (!dx && !dy)) continue; bool dup = false; for (P q : v) dup = dup || (cross(c, p, q) == 0 && (p.x - c.x) * (q.x - c.x) + (p.y - c.y) * (q.y - c.y) > 0); if (!dup) v.push_back(p); }
        auto half = [&](P p) { return p.y > c.y || (p.y == c.y && p.x > c.x) ? 0 : 1; };
        std::sort(v.begin(), v.end(), [&](P a, P b) { int x = half(a), y = half(b); return x != y ? x < y : cross(c, a, b) > 0; });
        if (v.size() < 3 || !simple(v, true)) continue;
        if (g.chance(50)) std::reverse(v.begin(), v.end());
        std::rotate(v.begin(), v.begin() + g.next() % v.size(), v.end()); return v;
    }
}
// rectilinear / comb shaped simple polygon
inline std::vector<P> rnd_comb(Rng& g, int teeth, int maxh) {
    std::vector<P> v; v.push_back({ 0, 0 }); v.push_back({ 2 * teeth, 0 });
    for (int i = teeth; i-- > 0;) { int h = g.in(1, maxh); int d = g.in(0, 1); v.push_back({ 2 * i + 2, d ? h : g.in(1, maxh) }); v.push_back({ 2 * i + 1, h }); }
    v.push_back({ 0, g.in(1, maxh) });
    return v;
}

// ---------------------------------------------------------------- similarity frames
// The specification is stated on small integer scenes.  The code is exercised on images of the scene under an exact
// (power-of-two scale, integer translation) map, and its answers are mapped back, so that magnitude- or sign-dependent
// behaviour is exercised without changing the record.
struct Frame {
    double s, tx, ty;
    double x(double v) const { return v * s + tx; }
    double y(double v) const { return v * s + ty; }
    double ix(double v) const { return (v - tx) / s; }
    double iy(double v) const { return (v - ty) / s; }
    double len(double v) const { return v * s; }
    double ilen(double v) const { return v / s; }
    double isq(double v) const { return v / (s * s); }
};
inline const std::vector<Frame>& frames() { static std::vector<Frame> f = { { 1, 0, 0 }, { 1, -7, 4 }, { 2, 32, -64 }, { 0.5, 0.25, -8 }, { 0.125, -3, -5 }, { 16, -1024, 512 }, { 1, 100, 1000 } }; return f; }
// far from the origin: only for operations that stay exact there (drivers opt in with far_ok() = true)
inline bool& far_ok() { static bool b = false; return b; }
inline const std::vector<Frame>& far_frames() { static std::vector<Frame> f = { { 1, 2097152, -1048576 }, { 1, -1048576, 2097152 }, { 0.5, -2097152, -2097152 } }; return f; }
// very small and very large units: only for operations whose tolerances stay clear of them (drivers opt in with scale_ok() = true)
inline int& scale_ok() { static int b = 0; return b; }                  // 1: small, 2: large, 3: both
inline const std::vector<Frame>& scale_frames() { static std::vector<Frame> f = { { 1. / 1024, 0, 0 }, { 1. / 1024, 0.5, -1.25 }, { 1024, 0, 0 }, { 4096, -8192, 40960 } }; return f; }
inline Frame near(const Frame& f) { return std::abs(f.tx) > 1e5 ? frames()[1] : f; }
inline Frame rnd_frame(Rng& g) { if (scale_ok() && g.chance(12)) return scale_frames()[scale_ok() == 3 ? g.next() % 4 : scale_ok() == 2 ? 2 + g.next() % 2 : g.next() % 2]; if (far_ok() && g.chance(12)) return far_frames()[g.next() % far_frames().size()]; return g.chance(40) ? frames()[0] : frames()[g.next() % frames().size()]; }

// ---------------------------------------------------------------- rationals
struct Q { long n = 0, d = 0; };   // d == 0: not representable
inline Q rat(double v, long dmax = 4000, double tol = 1e-7) {
    Q q;
    if (!(v == v) || std::fabs(v) > 1e8) return q;
    double av = std::fabs(v), x = av;
    long p0 = 0, q0 = 1, p1 = 1, q1 = 0;
    for (int i = 0; i < 40; ++i) {
        double a = std::floor(x);
        if (a > 1e9) break;
        long p2 = (long)a * p1 + p0, q2 = (long)a * q1 + q0;
        if (q2 > dmax) break;
        p0 = p1; q0 = q1; p1 = p2; q1 = q2;
        double err = std::fabs(av - double(p1) / double(q1));
        if (err <= 1e-12 * (1 + av)) break;
        double fr = x - a;
        if (fr < 1e-12) break;
        x = 1.0 / fr;
    }
    if (q1 == 0) return q;
    if (std::fabs(av - double(p1) / double(q1)) > tol * 1e-2 * (1 + av)) return q;
    q.n = v < 0 ? -p1 : p1; q.d = q1; return q;
}
inline long gcdl(long a, long b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { long t = a % b; a = b; b = t; } return a; }
// point with common denominator <<X,Y,D>>; D == 0 if not representable
struct QP { long x = 0, y = 0, d = 0; };
inline QP ratp(double a, double b, long dmax = 13000) {
    QP r; Q p = rat(a, dmax), q = rat(b, dmax);
    if (!p.d || !q.d) return r;
    long l = p.d / gcdl(p.d, q.d) * q.d;
    if (l > dmax) return r;
    r.d = l; r.x = p.n * (l / p.d); r.y = q.n * (l / q.d); return r;
}
struct QP3 { long x = 0, y = 0, z = 0, d = 0; };
inline QP3 ratp3(double a, double b, double c, long dmax = 4000) {
    QP3 r; Q p = rat(a, dmax), q = rat(b, dmax), s = rat(c, dmax);
    if (!p.d || !q.d || !s.d) return r;
    long l = p.d / gcdl(p.d, q.d) * q.d; l = l / gcdl(l, s.d) * s.d;
    if (l > dmax) return r;
    r.d = l; r.x = p.n * (l / p.d); r.y = q.n * (l / q.d); r.z = s.n * (l / s.d); return r;
}
// fixed point, rounded; clipped so that TLC integers never overflow
inline long fix(double v, double unit) { if (!(v == v)) return -999999999L; double r = std::floor(v * unit + 0.5); if (r > 9e8) return 999999999L; if (r < -9e8) return -999999998L; return (long)r; }

// ---------------------------------------------------------------- JSON
struct J {
    std::string s;
    static std::string n(long v) { return std::to_string(v); }
};
inline std::string js(long v) { return std::to_string(v); }
inline std::string js(unsigned v) { return std::to_string(v); }
inline std::string js(int v) { return std::to_string(v); }
inline std::string js(std::size_t v) { return std::to_string(v); }
inline std::string js(bool v) { return v ? "true" : "false"; }
inline std::string js(const char* v) { std::string r = "\""; for (; *v; ++v) { char c = *v; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
inline std::string js(const std::string& v) { return js(v.c_str()); }
inline std::string js(P p) { return "[" + js(p.x) + "," + js(p.y) + "]"; }
inline std::string js(Q q) { return "[" + js(q.n) + "," + js(q.d) + "]"; }
inline std::string js(QP q) { return "[" + js(q.x) + "," + js(q.y) + "," + js(q.d) + "]"; }
inline std::string js(QP3 q) { return "[" + js(q.x) + "," + js(q.y) + "," + js(q.z) + "," + js(q.d) + "]"; }
struct Raw { std::string s; };
inline std::string js(const Raw& r) { return r.s; }
template <class T, std::size_t N> std::string js(const std::array<T, N>& v);
template <class A, class B> std::string js(const std::pair<A, B>& v);
template <class T> std::string js(const std::vector<T>& v) { std::string r = "["; bool f = true; for (const auto& e : v) { if (!f) r += ","; f = false; r += js(e); } return r + "]"; }
template <class T, std::size_t N> std::string js(const std::array<T, N>& v) { std::string r = "["; bool f = true; for (const auto& e : v) { if (!f) r += ","; f = false; r += js(e); } return r + "]"; }
inline std::string js(const std::vector<bool>& v) { std::string r = "["; bool f = true; for (bool e : v) { if (!f) r += ","; f = false; r += js(e); } return r + "]"; }
template <class A, class B> std::string js(const std::pair<A, B>& v) { return "[" + js(v.first) + "," + js(v.second) + "]"; }
template <class... T> std::string arr(const T&... t) { std::string r = "["; bool f = true; std::vector<std::string> v = { js(t)... }; for (auto& e : v) { if (!f) r += ","; f = false; r += e; } return r + "]"; }

// ---------------------------------------------------------------- trace
struct Trace {
    FILE* f = nullptr;
    long n = 0;
    std::vector<std::pair<std::string, std::string>> cur;
    void open() { f = std::fopen(opts().out.c_str(), "w"); if (!f) { std::perror("trace"); std::exit(3); } static char buf[1 << 20]; std::setvbuf(f, buf, _IOFBF, sizeof buf); }
    void emit(const std::string& line) { std::fputs(line.c_str(), f); std::fputc('\n', f); ++n; }
};
inline Trace& trace() { static Trace t; return t; }

// ---------------------------------------------------------------- guarded execution
inline sigjmp_buf& jb() { static sigjmp_buf b; return b; }
inline volatile sig_atomic_t& in_case() { static volatile sig_atomic_t v = 0; return v; }
inline void on_sig(int s) { if (in_case()) { siglongjmp(jb(), s); } _exit(100 + s); }
inline void on_timer(int) { if (in_case()) siglongjmp(jb(), 1000); }
inline void install() {
    static char alt[1 << 16]; stack_t st; std::memset(&st, 0, sizeof st); st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, nullptr);
    struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
    for (int s : { SIGTRAP, SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL }) sigaction(s, &sa, nullptr);
    sa.sa_handler = on_timer; sigaction(SIGVTALRM, &sa, nullptr);
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 3ULL << 30; setrlimit(RLIMIT_AS, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    std::freopen("/dev/null", "w", stderr);
}
inline void timer(long ms) { struct itimerval tv; std::memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = ms / 1000; tv.it_value.tv_usec = (ms % 1000) * 1000; setitimer(ITIMER_VIRTUAL, &tv, nullptr); }

// Runs f() (which must return the JSON text of the reply).  Writes one record
//   {"op":..,"a":..,"x":"" | "assert" | "throw" | "crash" | "hang","r":..}
template <class F> inline void record(const char* op, const std::string& in, F&& f, const char* extra = "") {
    static std::string reply; reply = "[]";
    static const char* x; x = "";
    bool fatal = false;
    int sig = sigsetjmp(jb(), 1);
    if (sig == 0) {
        in_case() = 1; timer(5000);
        try { reply = f(); } catch (const std::exception&) { x = "throw"; } catch (...) { x = "throw"; }
        in_case() = 0; timer(0);
    } else {
        in_case() = 0; timer(0);
        x = sig == SIGTRAP ? "assert" : sig == 1000 ? "hang" : sig == SIGABRT ? "abort" : "crash";
        fatal = (sig == 1000 || sig == SIGSEGV || sig == SIGBUS || sig == SIGABRT);
    }
    std::string line = std::string("{\"op\":\"") + op + "\",\"a\":" + in + ",\"x\":\"" + x + "\",\"r\":" + (*x ? std::string("[]") : reply) + extra + "}";
    trace().emit(line);
    if (fatal) { std::fflush(trace().f); _exit(0); }   // heap may be inconsistent: the failing record is what matters
}
inline bool mine(std::uint64_t k) { return int(k % std::uint64_t(opts().shards)) == opts().shard; }

// behaviours generated by TLC: one per line, a (nested) tuple of integers; flattened, this shard's lines only
inline std::vector<std::vector<long>> script() {
    std::vector<std::vector<long>> r; std::ifstream in(opts().script); std::string l; std::uint64_t n = 0;
    while (std::getline(in, l)) {
        if (!mine(n++)) continue;
        std::vector<long> v;
        for (std::size_t i = 0; i < l.size();) {
            if (std::isdigit((unsigned char)l[i]) || (l[i] == '-' && i + 1 < l.size() && std::isdigit((unsigned char)l[i + 1]))) { char* e; v.push_back(std::strtol(l.c_str() + i, &e, 10)); i = e - l.c_str(); }
            else ++i;
        }
        r.push_back(v);
    }
    return r;
}
inline void begin(int argc, char** argv) { parse(argc, argv); install(); trace().open(); }
inline int end() { std::fclose(trace().f); std::printf("%ld\n", trace().n); return 0; }

} // namespace vh
