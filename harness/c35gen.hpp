// random histories of the quantities: only operations whose results are whole counts
struct Sim { std::array<LL, 2> p, v, u; long l, t; };
static std::vector<Op> draw(Rng& r, long n) {
    Sim s{ { { { { n, 2 * n } }, { { -2 * n, 4 * n } } } }, { { { { 3 * n, 4 * n } }, { { -4 * n, 3 * n } } } }, { { { { n, 0 } }, { { -2 * n, n } } } }, 5 * n, 2 };
    static const LL d5[4] = { { { 5, 0 } }, { { 0, 5 } }, { { 3, 4 } }, { { -4, 3 } } };
    auto dt = [](const LL& a, const LL& b) { return a[0] * b[0] + a[1] * b[1]; };
    std::vector<Op> ops;
    for (int k = r.in(4, 14), guard = 0; k > 0 && guard < 150; ++guard) {
        long c = r.in(1, 24), to = r.in(1, 2), a = r.in(1, 2), b = r.in(1, c == 14 || c == 15 ? 4 : 2), e = 0; Sim z = s; bool ok = true;
        auto &P = z.p[to - 1], &V = z.v[to - 1], &U = z.u[to - 1]; const auto pa = s.p[a - 1], va = s.v[a - 1], ua = s.u[a - 1], pb = s.p[(b - 1) % 2], vb = s.v[(b - 1) % 2], ub = s.u[(b - 1) % 2];
        if (c == 6 || c == 12 || c == 24) e = r.in(-3, 3); if (c == 7) { e = r.in(-4, 4); if (!e) continue; } if (c == 16) e = r.in(1, 6); if (c == 17 || c == 18) e = r.in(-20, 20);
        for (int x = 0; x < 2; ++x) switch (c) {
        case 1: P[x] = pa[x] + vb[x]; break; case 2: P[x] = pa[x] - vb[x]; break; case 3: V[x] = pa[x] - pb[x]; break; case 4: V[x] = va[x] + vb[x]; break; case 5: V[x] = va[x] - vb[x]; break;
        case 6: V[x] = e * va[x]; break; case 7: ok = ok && va[x] % e == 0; V[x] = va[x] / e; break; case 8: V[x] = s.t * ua[x]; break; case 9: ok = ok && va[x] % s.t == 0; U[x] = va[x] / s.t; break;
        case 10: P[x] = pa[x] + s.t * ub[x]; break; case 11: U[x] = ua[x] + ub[x]; break; case 12: U[x] = e * ua[x]; break; case 13: V[x] = -va[x]; break;
        case 14: ok = dt(va, d5[b - 1]) % 5 == 0; z.l = dt(va, d5[b - 1]) / 5; break; case 15: ok = ok && s.l * d5[b - 1][x] % 5 == 0; V[x] = s.l * d5[b - 1][x] / 5; break;
        case 16: z.t = e; break; case 17: z.l = e; break; case 18: if (x == a - 1) P[x] = e; break;
        case 19: { long m = dt(va, ub); ok = m > 0 && dt(va, va) > 0 && dt(va, va) % m == 0; if (ok) z.t = dt(va, va) / m; break; }
        case 20: { long q = std::lround(std::sqrt(double(dt(va, va)))); ok = q * q == dt(va, va); z.l = q; break; }
        case 21: ok = ok && (pa[x] + pb[x]) % 2 == 0; P[x] = (pa[x] + pb[x]) / 2; break;
        case 22: { long m = dt(vb, vb); ok = ok && m && dt(va, vb) * vb[x] % m == 0; if (m) V[x] = va[x] + dt(va, vb) * vb[x] / m; break; }
        case 23: P[x] = pa[x]; break; case 24: P[x] = pa[x] + e * (pb[x] - pa[x]) + s.t * ub[x]; break; }
        if (!ok) continue;
        long top = std::max(std::labs(z.l), z.t); for (auto* q : { &z.p, &z.v, &z.u }) for (auto& w : *q) for (long x : w) top = std::max(top, std::labs(x));
        if (top > 400) continue;
        s = z; ops.push_back({ { c, to, a, b, e } }); --k;
    }
    return ops;
}
