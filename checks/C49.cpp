// C49 rational approximation and lattice queries: convergents, Farey neighbours, expansions and closest points compared with exhaustive search.
// MC_BOUNDS: every radicand up to 400 (thorough 1000) with every denominator bound up to 600 (thorough 1500); every fraction with terms up to 120 (thorough 300); every continued fraction of up to 4 (thorough 5) terms below 6; Farey sequences up to order 32 (thorough 60) over [-2, 3]; every fraction with denominator up to 100 (thorough 250) in bases 2..16; every line with coefficients in -13..13 (thorough -21..21), every interval in -9..9 (thorough -13..13); every floor ladder with coefficients in -6..6 (thorough -8..8); convergents of the roots of about 250 radicands up to 10^18, every pair of 15 terms up to 2^63-1, digits of fractions with denominators up to 2^59 at positions up to 2^63-1, lines and ladders with coefficients up to 10^12 on intervals of up to 900 points
// MC_FLAGS: -O1
#include "mc.h"
#include <utility>
#include <stdint.h>
#include <math.h>
#include <vector>
#include <algorithm>
#include "altruct/algorithm/math/convergents.h"
#include "altruct/algorithm/math/fractions.h"
namespace am = altruct::math; typedef int64_t i64; typedef std::pair<i64, i64> P; typedef __int128 L;
static i64 fl(i64 a, i64 b) { i64 q = a / b; return q - (a % b && (a < 0) != (b < 0)); } static i64 gcdr(i64 a, i64 b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { i64 t = a % b; a = b; b = t; } return a; }
// |q sqrt S - p|, accurate for small terms
static long double off(i64 p, i64 q, i64 S) { long double d = (long double)(p * p - S * q * q); return fabsl(d) / (p + q * sqrtl((long double)S)); }
template<class I> static void sqrt_conv() {
    int S = mc::choose(mc::tier(401, 1001)); mc::state(mc::hash(S)); i64 a0 = 0; while ((a0 + 1) * (a0 + 1) <= S) a0++; int QM = mc::tier(600, 1500);
    if (a0 * a0 == S) { for (int Q = 0; Q <= QM; Q++) { mc::op(); auto r = am::sqrt_convergent<I>(S, Q); MC_CHECK(r.first == a0 && r.second == 1, "sqrt(%d) is %lld exactly", S, (long long)a0); } return; }
    // convergents with denominator above 1 are the record holders of |q sqrt S - p|
    std::vector<P> rec; rec.push_back(P(a0, 1)); long double best = off(a0, 1, S); if (off(a0 + 1, 1, S) < best) best = off(a0 + 1, 1, S); for (i64 q = 2; (rec.back().second <= QM); q++) { i64 p = 0; { L t = (L)q * q * S; p = (i64)sqrtl((long double)t); while ((L)p * p > t) p--; while ((L)(p + 1) * (p + 1) <= t) p++; } for (i64 c = p; c <= p + 1; c++) if (off(c, q, S) < best) { best = off(c, q, S); rec.push_back(P(c, q)); } }
    for (int Q = 0; Q <= QM; Q++) { mc::op(); auto r = am::sqrt_convergent<I>(S, Q); size_t k = 0; while (rec[k].second <= Q) k++; MC_CHECK(r.first == rec[k].first && r.second == rec[k].second, "convergent of sqrt(%d) with denominator above %d: %lld/%lld, wanted %lld/%lld", S, Q, (long long)r.first, (long long)r.second, (long long)rec[k].first, (long long)rec[k].second); }
}
static void sqrt_i64() { sqrt_conv<i64>(); } static void sqrt_int() { sqrt_conv<int>(); }
static void fraction_expansion() {
    int N = mc::tier(120, 300); int p = mc::choose(2 * N + 1) - N; mc::state(mc::hash(p));
    for (int q = 1; q <= N; q++) { mc::op(); auto v = am::continued_fraction<i64>(p, q); MC_CHECK(!v.empty(), "no terms for %d/%d", p, q); i64 n = v.back(), d = 1; for (size_t k = v.size() - 1; k-- > 0;) { i64 t = n * v[k] + d; d = n; n = t; } MC_CHECK((L)n * q == (L)d * p && d, "the continued fraction of %d/%d evaluates to %lld/%lld", p, q, (long long)n, (long long)d);
        if (p >= 0) { MC_CHECK(v[0] == p / q, "integer part"); for (size_t k = 1; k < v.size(); k++) MC_CHECK(v[k] >= 1, "term %zu of %d/%d", k, p, q); if (v.size() > 1) MC_CHECK(v.back() >= 2, "last term of %d/%d", p, q); }
        auto c = am::convergents<i64>(v); MC_CHECK(c.size() == v.size(), "convergents of %d/%d", p, q); MC_CHECK((L)c.back().first * q == (L)c.back().second * p, "last convergent of %d/%d", p, q); MC_CHECK(gcdr(c.back().first, c.back().second) == 1, "last convergent of %d/%d not reduced", p, q); for (size_t k = 0; k < c.size(); k++) { if (k) { i64 det = c[k].first * c[k - 1].second - c[k - 1].first * c[k].second; MC_CHECK(det == (k % 2 ? 1 : -1), "determinant of convergents %zu of %d/%d", k, p, q); } n = v[k]; d = 1; for (size_t j = k; j-- > 0;) { i64 t = n * v[j] + d; d = n; n = t; } MC_CHECK((L)c[k].first * d == (L)c[k].second * n, "convergent %zu of %d/%d", k, p, q); }
        // best approximations of the first kind
        if (p < 0) continue; auto b = am::convergents<i64>(v, (i64)1000000); auto dist = [&](i64 x, i64 y) { i64 t = x * q - y * p; return P(t < 0 ? -t : t, y); }; /* |x/y - p/q| q = t / y */ auto less = [&](P s, P t) { return (L)s.first * t.second < (L)t.first * s.second; };
        size_t k = 0; P cur(-1, 1); i64 g = gcdr(p, q); for (i64 y = 1; y <= q / g; y++) { i64 x = fl(p * y, q); P lo = dist(x, y), hi = dist(x + 1, y); i64 bx = less(hi, lo) ? x + 1 : x; P bd = less(hi, lo) ? hi : lo; if (cur.first < 0 || less(bd, cur)) { cur = bd; while (k < b.size() && b[k] != P(bx, y)) { k++; } MC_CHECK(k < b.size(), "%lld/%lld is a best approximation of %d/%d and is not listed", (long long)bx, (long long)y, p, q); } }
        // everything listed is a convergent, a semi-convergent past the middle, or the exact middle
        size_t at = 0; for (size_t t = 0; t < v.size(); t++) { P p1 = t ? c[t - 1] : P(1, 0), p2 = t > 1 ? c[t - 2] : t ? P(1, 0) : P(0, 1); for (i64 a = t ? v[t] - v[t] / 2 : v[t]; a <= v[t]; a++, at++) MC_CHECK(at < b.size() && b[at] == P(a * p1.first + p2.first, a * p1.second + p2.second), "semi-convergent %zu of %d/%d", at, p, q); } MC_CHECK(at == b.size(), "extra semi-convergents of %d/%d", p, q);
    }
}
static void term_lists() {
    int n = mc::choose(mc::tier(5, 6)), s = mc::choose(4); std::vector<i64> v(n); mc::H h; h(s); for (int i = 0; i < n; i++) { v[i] = i ? 1 + mc::choose(5) : mc::choose(9) - 4; h(v[i] + 10); } mc::state(h.h); mc::op(); auto g = am::convergents<i64>(v, (i64)s); std::vector<P> c; P p2(0, 1), p1(1, 0); size_t at = 0;
    for (int i = 0; i < n; i++) { i64 m = i ? std::min<i64>(s, v[i] / 2) : 0; for (i64 a = v[i] - m; a <= v[i]; a++, at++) MC_CHECK(at < g.size() && g[at] == P(a * p1.first + p2.first, a * p1.second + p2.second), "entry %zu for terms %s with %d semi-convergents", at, mc::show(v).c_str(), s); P t(v[i] * p1.first + p2.first, v[i] * p1.second + p2.second); p2 = p1; p1 = t; } MC_CHECK(at == g.size(), "%zu entries for terms %s, wanted %zu", g.size(), mc::show(v).c_str(), at);
    std::vector<int> w(v.begin(), v.end()); auto gi = am::convergents<int>(w, s); MC_CHECK(gi.size() == g.size(), "in int"); for (size_t i = 0; i < g.size(); i++) MC_CHECK(gi[i].first == g[i].first && gi[i].second == g[i].second, "in int");
}
// Farey sequences walked both ways, from every element, with and without the neighbour known
template<class I> static void farey() {
    typedef am::fraction<I> F; int n = 1 + mc::choose(mc::tier(32, 60)); mc::state(mc::hash(n, (int)sizeof(I))); std::vector<P> f; for (int q = 1; q <= n; q++) for (int p = -2 * q; p <= 3 * q; p++) if (gcdr(p, q) == 1) f.push_back(P(p, q)); std::sort(f.begin(), f.end(), [](P a, P b) { return a.first * b.second < b.first * a.second; });
    auto is = [](const F& a, P b) { return a.p == b.first && a.q == b.second; }; auto mk = [](P a) { return F((I)a.first, (I)a.second); };
    for (size_t i = 1; i + 1 < f.size(); i++) { mc::op(); F x = mk(f[i]); MC_CHECK(is(am::farey_neighbour<I>(n, F(-1, 0), x), f[i + 1]), "right neighbour of %lld/%lld of order %d", (long long)f[i].first, (long long)f[i].second, n); MC_CHECK(is(am::farey_neighbour<I>(n, F(1, 0), x), f[i - 1]), "left neighbour of %lld/%lld of order %d", (long long)f[i].first, (long long)f[i].second, n); MC_CHECK(is(am::farey_neighbour<I>(n, mk(f[i - 1]), x), f[i + 1]), "right neighbour of %lld/%lld of order %d from the left one", (long long)f[i].first, (long long)f[i].second, n); MC_CHECK(is(am::farey_neighbour<I>(n, mk(f[i + 1]), x), f[i - 1]), "left neighbour of %lld/%lld of order %d from the right one", (long long)f[i].first, (long long)f[i].second, n); }
    F u(0, 1), up(-1, 0); for (size_t i = 0; i < f.size(); i++) if (f[i].first >= 0) { MC_CHECK(is(u, f[i]), "walk of order %d", n); F t = am::farey_neighbour<I>(n, up, u); up = u; u = t; }
}
static void farey_int() { farey<int>(); } static void farey_i64() { farey<i64>(); }
// every order for a single large fraction: only the two exact neighbours are possible
static void farey_large() { static const i64 dn[] = {999983, 1000000, 524287, 720720, 1000000007}; i64 q = dn[mc::choose(5)]; int pi = mc::choose(12); static const i64 mul[] = {1, 2, 3, 5, 7, 1000, 3001, 65537}; i64 p = pi < 8 ? mul[pi] : q - mul[pi - 8]; i64 g = gcdr(p, q); p /= g; i64 qq = q / g; int e = mc::choose(6); i64 n = qq + (e < 3 ? e : e == 3 ? qq / 2 : e == 4 ? qq - 1 : qq * 3); mc::state(mc::hash(p, qq, n)); mc::op(); typedef am::fraction<i64> F; F x(p, qq); F r = am::farey_neighbour<i64>(n, F(-1, 0), x), l = am::farey_neighbour<i64>(n, F(1, 0), x);
    MC_CHECK((L)r.p * qq - (L)p * r.q == 1 && r.q <= n && r.q + qq > n, "right neighbour of %lld/%lld of order %lld: %lld/%lld", (long long)p, (long long)qq, (long long)n, (long long)r.p, (long long)r.q); MC_CHECK((L)p * l.q - (L)l.p * qq == 1 && l.q <= n && l.q + qq > n, "left neighbour of %lld/%lld of order %lld", (long long)p, (long long)qq, (long long)n); F rr = am::farey_neighbour<i64>(n, l, x), ll = am::farey_neighbour<i64>(n, r, x); MC_CHECK(rr.p == r.p && rr.q == r.q && ll.p == l.p && ll.q == l.q, "neighbours from each other"); }
template<class I> static void expansion() {
    int q = 2 + mc::choose(mc::tier(99, 249)), b = 2 + mc::choose(15); mc::state(mc::hash(q, b, (int)sizeof(I)));
    for (int p = 1; p < q; p++) {
        mc::op(); std::vector<int> d, seen(q, -1); int r = p; size_t period = 0; for (int i = 0;; i++) { if (r == 0) { period = 0; break; } if (seen[r] >= 0) { period = i - seen[r]; break; } seen[r] = i; d.push_back(r * b / q); r = r * b % q; }
        auto g = am::repeating_decimal<I>(b, p, q); MC_CHECK(g.first == d, "digits of %d/%d in base %d: %s, wanted %s", p, q, b, mc::show(g.first).c_str(), mc::show(d).c_str()); MC_CHECK(g.second == period, "period of %d/%d in base %d: %zu, wanted %zu", p, q, b, g.second, period);
        if (p % 7 > 1 && p != q - 1) continue; std::vector<int> all; r = p; std::vector<int> rem; for (int i = 0; i < 40; i++) { all.push_back(r * b / q); r = r * b % q; rem.push_back(r); }
        r = p; for (int i = 0; i < 40; i++) { I left = -1; MC_CHECK((am::rational_digit<I>(i, b, p, q)) == all[i], "digit %d of %d/%d in base %d", i, p, q, b); MC_CHECK((am::rational_digit<I>(i, b, p, q, &left)) == all[i], "digit %d of %d/%d in base %d with the remainder", i, p, q, b); MC_CHECK(left == (I)(i ? rem[i - 1] : p), "remainder before digit %d of %d/%d in base %d", i, p, q, b); }
        for (int n = 0; n < 12; n += 1 + n / 3) for (int len = 0; len <= 25; len += 1 + len / 4) MC_CHECK((am::rational_digits<I>(n, len, b, p, q)) == std::vector<int>(all.begin() + n, all.begin() + n + len), "%d digits of %d/%d in base %d from %d", len, p, q, b, n);
    }
}
static void expansion_i64() { expansion<i64>(); } static void expansion_int() { expansion<int>(); }
// lattice points
template<class I> static void closest() {
    int u = mc::tier(13, 21), w = mc::tier(9, 13); int a = mc::choose(2 * u + 1) - u, b = mc::choose(2 * u + 1) - u; mc::state(mc::hash(a + 50, b + 50, (int)sizeof(I)));
    for (int c = -u; c <= u; c++) { int best[64]; auto val = [&](int x) { if (!b) return abs(a * x + c); int t = a * x + c, m = abs(b), r = ((t % m) + m) % m; return std::min(r, m - r); }; for (int x = -w; x <= w; x++) best[x + w] = val(x);
        for (int l = -w; l <= w; l++) { int lo = best[l + w]; for (int r = l; r <= w; r++) { lo = std::min(lo, best[r + w]); mc::op(); I x = am::line_closest_lattice_point<I>(a, b, c, l, r); MC_CHECK(x >= l && x <= r, "%d x + %d y + %d on [%d, %d]: %lld is outside", a, b, c, l, r, (long long)x); MC_CHECK(best[(int)x + w] == lo, "%d x + %d y + %d on [%d, %d]: %lld is at %d, the best is at %d", a, b, c, l, r, (long long)x, best[(int)x + w], lo); } } }
}
static void closest_i64() { closest<i64>(); } static void closest_int() { closest<int>(); }
static void closest_wide() { static const int A[] = {1, 7, 13, 34, 55, 89, 97, 100, 144, 233}; int a = A[mc::choose(10)] * (mc::choose(2) ? -1 : 1), b = A[mc::choose(10)] * (mc::choose(2) ? -1 : 1), c = (mc::choose(9) - 4) * 29; mc::state(mc::hash(a + 500, b + 500, c + 500)); auto val = [&](int x) { int t = a * x + c, m = abs(b), r = ((t % m) + m) % m; return std::min(r, m - r); };
    for (int l = -120; l <= 120; l += 13) { int lo = 1 << 30, r = l; for (int len = 0; len <= 300; len += 1 + len / 3) { while (r <= l + len) lo = std::min(lo, val(r++)); mc::op(); int x = am::line_closest_lattice_point<int>(a, b, c, l, l + len); MC_CHECK(x >= l && x <= l + len && val(x) == lo, "%d x + %d y + %d on [%d, %d]: %d", a, b, c, l, l + len, x); } } }
template<class I> static void ladder() {
    int u = mc::tier(6, 8), w = mc::tier(7, 10); int a = mc::choose(2 * u + 1) - u, b = mc::choose(2 * u + 1) - u, c = mc::choose(2 * u + 1) - u; mc::state(mc::hash(a + 50, b + 50, c + 50, (int)sizeof(I)));
    for (int d = -u; d <= u; d++) for (int e = -u; e <= u; e++) if (e) { i64 v[64]; for (int x = -w; x <= w; x++) v[x + w] = (i64)a * x + b * fl(c * x + d, e); for (int l = -w; l <= w; l++) { i64 lo = v[l + w]; for (int r = l; r <= w; r++) { lo = std::min(lo, v[r + w]); mc::op(); I x = am::minimize_floor_ladder<I>(a, b, c, d, e, l, r); MC_CHECK(x >= l && x <= r && v[(int)x + w] == lo, "%d x + %d floor((%d x + %d) / %d) on [%d, %d]: %lld", a, b, c, d, e, l, r, (long long)x); } } }
}
static void ladder_i64() { ladder<i64>(); } static void ladder_int() { ladder<int>(); }
static void ladder_wide() { static const int A[] = {1, 8, 21, 34, 55, 100}; auto pick = [&] { int v = A[mc::choose(6)]; return mc::choose(2) ? -v : v; }; i64 a = pick(), b = pick(), c = pick(), e = pick(); mc::state(mc::hash(a, b, c, e)); for (i64 d = -90; d <= 90; d += 45) for (int l = -70; l <= 70; l += 35) { i64 lo = INT64_MAX; int r = l; for (int len = 0; len <= 150; len += 1 + len / 2) { while (r <= l + len) { lo = std::min(lo, a * r + b * fl(c * r + d, e)); r++; } mc::op(); i64 x = am::minimize_floor_ladder<i64>(a, b, c, d, e, l, l + len); MC_CHECK(x >= l && x <= l + len && a * x + b * fl(c * x + d, e) == lo, "%lld x + %lld floor((%lld x + %lld) / %lld) on [%d, %d]: %lld", (long long)a, (long long)b, (long long)c, (long long)d, (long long)e, l, l + len, (long long)x); } } }
// large terms
static void sqrt_large() { static const i64 SB[] = {1000, 65536, 1000000, 46341ll * 46341, 1ll << 31, 1ll << 32, 1000000007ll, 1000000000000ll, 1ll << 50, 999999999999999ll, 1ll << 60, 1000000000000000000ll}; i64 S = SB[mc::choose(12)] + mc::choose(21) - 10; mc::state(mc::hash(S)); i64 a0 = (i64)sqrtl((long double)S); while ((L)a0 * a0 > S) a0--; while ((L)(a0 + 1) * (a0 + 1) <= S) a0++; if (a0 * a0 == S) { for (i64 Q : {0ll, 5ll, 1000000000ll}) { auto r = am::sqrt_convergent<i64>(S, Q); mc::op(); MC_CHECK(r.first == a0 && r.second == 1, "sqrt(%lld)", (long long)S); } return; }
    // complete quotients (m + sqrt S) / d in 128 bits; next convergents while they fit
    std::vector<P> cv; L m = 0, d = 1, a = a0, p = a0, p1 = 1, q = 1, q1 = 0; for (;;) { cv.push_back(P((i64)p, (i64)q)); m = d * a - m; d = (S - m * m) / d; a = (a0 + m) / d; L t = a * p + p1; p1 = p; p = t; t = a * q + q1; q1 = q; q = t; if (p > ((L)1 << 62) || cv.size() > 60) break; }
    for (size_t k = 0; k < cv.size(); k++) { if (k) { L det = (L)cv[k].first * cv[k - 1].second - (L)cv[k - 1].first * cv[k].second; MC_CHECK(det == (k % 2 ? 1 : -1), "reference"); } for (int e = -1; e <= 1; e++) { i64 Q = cv[k].second + e; if (Q < 0) continue; size_t j = 0; while (j < cv.size() && cv[j].second <= Q) j++; if (j == cv.size()) continue; mc::op(); auto r = am::sqrt_convergent<i64>(S, Q); MC_CHECK(r == cv[j], "convergent of sqrt(%lld) with denominator above %lld: %lld/%lld, wanted %lld/%lld", (long long)S, (long long)Q, (long long)r.first, (long long)r.second, (long long)cv[j].first, (long long)cv[j].second); if (S <= INT32_MAX && cv[j].first <= INT32_MAX) { auto t = am::sqrt_convergent<int>((int)S, (int)Q); MC_CHECK(t.first == r.first && t.second == r.second, "convergent of sqrt(%lld) in int", (long long)S); } } } }
static void fraction_large() { static const i64 B[] = {1, 7, 1000, 65537, 1000003, 2147483647, 4294967296ll, 1000000007ll * 7, 999999999989ll, (1ll << 53) - 1, 1000000000000000003ll, 4611686018427387903ll, 2880067194370816120ll, 1779979416004714189ll, INT64_MAX}; i64 p = B[mc::choose(15)], q = B[mc::choose(15)]; int sg = mc::choose(2); mc::state(mc::hash(p, q, sg)); mc::op(); if (sg) p = -p; auto v = am::continued_fraction<i64>(p, q); std::vector<i64> w; { i64 x = p, y = q; while (y) { w.push_back(x / y); i64 t = x % y; x = y; y = t; } } i64 g = gcdr(p, q); auto c = am::convergents<i64>(v); MC_CHECK(!c.empty() && c.size() == v.size() && c.back().first == (c.back().second < 0 ? -1 : 1) * (p / g) && std::abs(c.back().second) == q / g, "last convergent of %lld/%lld: %lld/%lld", (long long)p, (long long)q, (long long)c.back().first, (long long)c.back().second); if (!sg) MC_CHECK(v == w, "continued fraction of %lld/%lld is %s", (long long)p, (long long)q, mc::show(v).c_str()); for (size_t k = 1; k < c.size(); k++) MC_CHECK((L)c[k].first * c[k - 1].second - (L)c[k - 1].first * c[k].second == (k % 2 ? 1 : -1), "convergents %zu of %lld/%lld", k, (long long)p, (long long)q);
    if (!sg) { auto b = am::convergents<i64>(v, 3); size_t at = 0; for (size_t t = 0; t < v.size(); t++) { P p1 = t ? c[t - 1] : P(1, 0), p2 = t > 1 ? c[t - 2] : t ? P(1, 0) : P(0, 1); for (i64 a = v[t] - std::min<i64>(t ? 3 : 0, v[t] / 2); a <= v[t]; a++) { MC_CHECK(at < b.size() && b[at] == P((i64)((L)a * p1.first + p2.first), (i64)((L)a * p1.second + p2.second)), "semi-convergent %zu of %lld/%lld", at, (long long)p, (long long)q); at++; if (a == v[t]) break; } } MC_CHECK(at == b.size(), "%zu entries with semi-convergents of %lld/%lld, expected %zu", b.size(), (long long)p, (long long)q, at); } }
static i64 pm(i64 b, i64 e, i64 m) { L r = 1 % m, x = b % m; for (; e; e >>= 1) { if (e & 1) r = r * x % m; x = x * x % m; } return (i64)r; }
template<class I> static void digits_of(i64 p, i64 q, int b, i64 n) { i64 r = (i64)((L)pm(b, n, q) * p % q), left0 = r; std::vector<int> w; for (int i = 0; i < 12; i++) { w.push_back((int)((L)r * b / q)); r = (i64)((L)r * b % q); } I left = -1; mc::op(); MC_CHECK((am::rational_digit<I>((I)n, b, (I)p, (I)q)) == w[0] && (am::rational_digit<I>((I)n, b, (I)p, (I)q, &left)) == w[0] && left == (I)left0, "digit %lld of %lld/%lld in base %d", (long long)n, (long long)p, (long long)q, b); for (int len : {0, 1, 2, 12}) MC_CHECK((am::rational_digits<I>((I)n, len, b, (I)p, (I)q)) == std::vector<int>(w.begin(), w.begin() + len), "%d digits of %lld/%lld in base %d from %lld", len, (long long)p, (long long)q, b, (long long)n); }
static void digits_large() { static const i64 Q[] = {3, 97, 65536, 65537, 1000003, 134217689, 2147483647, 4294967295ll, 4294967311ll, 1000000000039ll, 1ll << 50, 288230376151711717ll, 576460752303423487ll}; static const int B[] = {2, 3, 10, 15, 16}; i64 q = Q[mc::choose(13)]; int b = B[mc::choose(5)]; mc::state(mc::hash(q, b)); for (i64 p : {(i64)1, (i64)2, q / 2, q / 3 + 1, q - 1}) if (p > 0 && p < q) for (i64 n : {0ll, 1ll, 31ll, 64ll, 1000000ll, 2147483647ll, 4294967296ll, 1000000000000000000ll, 9223372036854775807ll}) { digits_of<i64>(p, q, b, n); if (q < 134217728 && n <= INT32_MAX) digits_of<int>(p, q, b, n); } }
static void lattice_large() { static const i64 A[] = {1, 999983, 1000003, 123456789, 1000000007, 2147483647, 30000000001ll, 987654321987ll}; auto pick = [&] { i64 v = A[mc::choose(8)]; return mc::choose(2) ? -v : v; }; i64 a = pick(), b = pick(); int ci = mc::choose(4), off = mc::choose(3); i64 c = (i64[]){0, 17, -123456789, 555555555555ll}[ci], x0 = (i64[]){-400, 1000000, -2000003}[off]; mc::state(mc::hash(a, b, ci, off)); i64 m = b < 0 ? -b : b; auto val = [&](i64 x) { i64 t = (i64)(((L)a * x + c) % m); if (t < 0) t += m; return std::min(t, m - t); };
    i64 lo = INT64_MAX; int len = 0, step = 1; for (int k = 0; k <= 900; k++) { lo = std::min(lo, val(x0 + k)); if (k != len) continue; len += step; step += step / 2 + 1; mc::op(); i64 x = am::line_closest_lattice_point<i64>(a, b, c, x0, x0 + k); MC_CHECK(x >= x0 && x <= x0 + k && val(x) == lo, "%lld x + %lld y + %lld on [%lld, %lld]: %lld is at %lld, the best is at %lld", (long long)a, (long long)b, (long long)c, (long long)x0, (long long)(x0 + k), (long long)x, (long long)val(x), (long long)lo); } }
static void ladder_large() { static const i64 A[] = {1, 999983, 1000003, 123456789, 1000000007}; auto pick = [&] { i64 v = A[mc::choose(5)]; return mc::choose(2) ? -v : v; }; i64 a = pick(), b = pick(), c = pick(), e = pick(); int di = mc::choose(3), off = mc::choose(3); i64 d = (i64[]){0, 999, -123456789}[di], x0 = (i64[]){-200, 5000, -20003}[off]; mc::state(mc::H()(a)(b)(c)(e)(di)(off)); auto val = [&](i64 x) { return (L)a * x + (L)b * fl(c * x + d, e); };
    L lo = 0; int len = 0, step = 1; for (int k = 0; k <= 500; k++) { lo = k ? std::min(lo, val(x0 + k)) : val(x0); if (k != len) continue; len += step; step += step / 2 + 1; mc::op(); i64 x = am::minimize_floor_ladder<i64>(a, b, c, d, e, x0, x0 + k); MC_CHECK(x >= x0 && x <= x0 + k && val(x) == lo, "%lld x + %lld floor((%lld x + %lld) / %lld) on [%lld, %lld]: %lld", (long long)a, (long long)b, (long long)c, (long long)d, (long long)e, (long long)x0, (long long)(x0 + k), (long long)x); } }
MC_SETUP(setup) { mc::add("sqrt_large", sqrt_large); mc::add("fraction_large", fraction_large); mc::add("digits_large", digits_large); mc::add("lattice_large", lattice_large); mc::add("ladder_large", ladder_large, 4); mc::add("sqrt_i64", sqrt_i64, 4); mc::add("sqrt_int", sqrt_int, 4); mc::add("fraction_expansion", fraction_expansion, 4); mc::add("term_lists", term_lists, 4); mc::add("farey_int", farey_int, 2); mc::add("farey_i64", farey_i64, 2); mc::add("farey_large", farey_large); mc::add("expansion_i64", expansion_i64, 4); mc::add("expansion_int", expansion_int, 4); mc::add("closest_i64", closest_i64, 8); mc::add("closest_int", closest_int, 8); mc::add("closest_wide", closest_wide, 8); mc::add("ladder_i64", ladder_i64, 8); mc::add("ladder_int", ladder_int, 8); mc::add("ladder_wide", ladder_wide, 4); }
