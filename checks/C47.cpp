// C47 Pell equations: every non-square D and every N in the bounds, all solutions compared with exhaustive search over y.
// MC_BOUNDS: every non-square D up to 110 (thorough 260) whose unit fits, every N with |N| up to 70 (thorough 150), every solution with x up to 20000 (thorough 200000), limits on x, on y, on both and on the count; every expansion of (P + sqrt D) / Q with D up to 60 (thorough 120), |P| up to 12, |Q| up to 24; about 100 radicands up to 10^9 whose expansion is short, with 21 right hand sides each up to 10^5
// MC_ASSUME: solutions with y > 0 are listed (the trivial solution (k, 0) for N = k^2 is not); the fundamental solutions stay below 2^31
// MC_FLAGS: -O1
#include "mc.h"
#include <utility>
#include <stdint.h>
#include <math.h>
#include <algorithm>
#include <set>
#include <vector>
#include "altruct/algorithm/math/pell.h"
namespace am = altruct::math; typedef int64_t i64; typedef __int128 L; typedef std::pair<i64, i64> P;
static i64 isq(L t) { i64 x = (i64)sqrtl((long double)t); while ((L)x * x > t) x--; while ((L)(x + 1) * (x + 1) <= t) x++; return x; }
static bool square(i64 D) { i64 r = isq(D); return r * r == D; }
// the smallest solution of x^2 - D y^2 = N with y > 0 and y at most lim, or (0, 0)
static P least(i64 D, i64 N, i64 lim) { for (i64 y = 1; y <= lim; y++) { L t = (L)D * y * y + N; if (t < 0) continue; i64 x = isq(t); if ((L)x * x == t) return P(x, y); } return P(0, 0); }
// fundamental unit by the textbook expansion of sqrt(D) in wide arithmetic; length of the period; whether it fits
static bool unit(i64 D, P& u, int& len, P& half) { i64 a0 = isq(D), m = 0, d = 1, a = a0; L p1 = 1, p = a0, q1 = 0, q = 1; len = 0; half = P(0, 0); do { m = d * a - m; d = (D - m * m) / d; a = (a0 + m) / d; len++; if (d == 1) break; L t = a * p + p1; p1 = p; p = t; t = a * q + q1; q1 = q; q = t; if (p > ((L)1 << 60)) return false; } while (true); L s = p * p - D * q * q; if (s == -1) { half = P((i64)p, (i64)q); if (p > 2000000000) return false; L x = p * p + D * q * q, y = 2 * p * q; p = x; q = y; } if (p > 2000000000) return false; u = P((i64)p, (i64)q); return true; }
static std::vector<P> brute(i64 D, i64 N, i64 xmax, i64 ymax) { std::vector<P> r; for (i64 y = 1; y <= ymax; y++) { L t = (L)D * y * y + N; if (t < 0) continue; if (t > (L)xmax * xmax) break; i64 x = isq(t); if ((L)x * x == t) r.push_back(P(x, y)); } return r; }
static std::vector<std::pair<i64, int>> fact(i64 n) { std::vector<std::pair<i64, int>> f; if (n < 0) n = -n; for (i64 p = 2; p <= n; p++) { if (p * p > n) p = n; int e = 0; while (n % p == 0) n /= p, e++; if (e) f.push_back({p, e}); } return f; }
static std::vector<P> pairs(const std::vector<am::quadraticX<i64>>& v) { std::vector<P> r; for (auto& s : v) r.push_back(P(s.a, s.b)); return r; }
static std::string str(const std::vector<P>& v) { std::string s; for (auto& p : v) { s += "(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")"; if (s.size() > 120) return s + "..."; } return s; }
static void __attribute__((noinline)) same(std::vector<P> g, const std::vector<P>& w, const char* what, i64 D, i64 N) { mc::op(); std::sort(g.begin(), g.end()); MC_CHECK(g == w, "x^2 - %lld y^2 = %lld, %s: %s, wanted %s", (long long)D, (long long)N, what, str(g).c_str(), str(w).c_str()); }
static i64 pick_D(i64 lim) { static std::vector<i64> ds; if (ds.empty()) for (i64 d = 2; d <= lim; d++) if (!square(d)) ds.push_back(d); return ds[mc::choose((int)ds.size())]; }
static void ordinary_of(i64 D) {
    mc::state(mc::hash(D)); P u, half; int len; if (!unit(D, u, len, half)) mc::cut(); i64 x = -7, y = -7; mc::op();
    int l = am::pell1<i64>(D, 1, x, y); MC_CHECK(l == len && x == u.first && y == u.second, "x^2 - %lld y^2 = 1: (%lld, %lld) with period %d, wanted (%lld, %lld) with %d", (long long)D, (long long)x, (long long)y, l, (long long)u.first, (long long)u.second, len); if (y <= 200000) MC_CHECK(least(D, 1, y) == P(x, y), "least solution"); l = am::pell1<i64>(D, -1, x, y); if (half.second) MC_CHECK(l == len && P(x, y) == half && (L)x * x - (L)D * y * y == -1, "x^2 - %lld y^2 = -1: (%lld, %lld) with period %d", (long long)D, (long long)x, (long long)y, l); else MC_CHECK(l == 0, "x^2 - %lld y^2 = -1 has no solution", (long long)D);
    for (i64 N = -1; N <= 1; N += 2) { std::vector<P> w; if (N == 1 || half.second) { L a = N == 1 ? u.first : half.first, b = N == 1 ? u.second : half.second; while (a < ((L)1 << 61) && w.size() < 12) { w.push_back(P((i64)a, (i64)b)); L t = a * u.first + D * b * u.second; b = a * u.second + b * u.first; a = t; if (a > ((L)1 << 61) / u.first / 2) break; } }
        if (w.empty() || w.size() > 1) {} for (size_t k = 0; k <= w.size() && k < 12; k++) { if ((L)(k ? w[k - 1].first : 1) * u.first * 3 > ((L)1 << 62)) break; if (k) { same(pairs(am::pell1<i64>(D, N, 0, 0, (int)k)), std::vector<P>(w.begin(), w.begin() + k), "by count", D, N); i64 X = w[k - 1].first, Y = w[k - 1].second; std::vector<P> upto(w.begin(), w.begin() + k), below(w.begin(), w.begin() + k - 1); same(pairs(am::pell1<i64>(D, N, X, 0, 0)), upto, "by x", D, N); if (X > 1) same(pairs(am::pell1<i64>(D, N, X - 1, 0, 0)), below, "by x", D, N); same(pairs(am::pell1<i64>(D, N, 0, Y, 0)), upto, "by y", D, N); if (Y > 1) same(pairs(am::pell1<i64>(D, N, 0, Y - 1, 0)), below, "by y", D, N); if (k + 1 < w.size()) same(pairs(am::pell1<i64>(D, N, X + 1, Y + 1, (int)k + 1)), upto, "by everything", D, N); } else if (w.empty()) same(pairs(am::pell1<i64>(D, N, 1000, 0, 0)), w, "without a solution", D, N); } }
}
static i64 wide_D();
static void generalized_of(i64 D, i64 N, const i64 X) {
    if (!N) mc::cut(); mc::state(mc::hash(D, N + 1000)); P u, half; int len; if (!unit(D, u, len, half)) mc::cut(); const i64 BIG = (i64)1 << 40; auto f = fact(N); auto w = brute(D, N, X, BIG);
    // one representative for each class
    auto cl = pairs(am::pell<i64>(D, N, f)); mc::op(); i64 aN = N < 0 ? -N : N; for (auto& c : cl) MC_CHECK((L)c.first * c.first - (L)D * c.second * c.second == N, "(%lld, %lld) is not a solution of x^2 - %lld y^2 = %lld", (long long)c.first, (long long)c.second, (long long)D, (long long)N);
    for (size_t i = 0; i < cl.size(); i++) for (size_t j = 0; j < i; j++) { L s = (L)cl[i].first * cl[j].first - (L)D * cl[i].second * cl[j].second, t = (L)cl[i].first * cl[j].second - (L)cl[i].second * cl[j].first; MC_CHECK(s % aN != 0 || t % aN != 0, "two representatives of a class of x^2 - %lld y^2 = %lld: (%lld, %lld) and (%lld, %lld)", (long long)D, (long long)N, (long long)cl[i].first, (long long)cl[i].second, (long long)cl[j].first, (long long)cl[j].second); }
    // every solution found by search belongs to the class of a representative
    for (auto& p : w) { bool hit = false; for (auto& c : cl) { L s = (L)p.first * c.first - (L)D * p.second * c.second, t = (L)p.first * c.second - (L)p.second * c.first; hit |= s % aN == 0 && t % aN == 0; } MC_CHECK(hit, "(%lld, %lld) is a solution of x^2 - %lld y^2 = %lld and no class has it", (long long)p.first, (long long)p.second, (long long)D, (long long)N); }
    same(pairs(am::pell<i64>(D, N, f, X, (i64)0, 0)), w, "all solutions by x", D, N); { std::vector<P> g; am::pell<i64>(D, N, f, X, (i64)0, 0, [&](const am::quadraticX<i64>& s) { g.push_back(P(s.a, s.b)); }); same(g, w, "all solutions visited by x", D, N); }
    i64 Y = isq((L)X * X / D) / 2 + 1; std::vector<P> wy; for (auto& p : w) if (p.second <= Y) wy.push_back(p); same(pairs(am::pell<i64>(D, N, f, (i64)0, Y, 0)), wy, "all solutions by y", D, N);
    if (w.size() <= 12) for (size_t k = 1; k <= w.size(); k++) { std::vector<P> first(w.begin(), w.begin() + k), below(w.begin(), w.begin() + k - 1); same(pairs(am::pell<i64>(D, N, f, X, (i64)0, (int)k)), first, "the first by count below x", D, N); i64 x = w[k - 1].first, y = w[k - 1].second; if (x) same(pairs(am::pell<i64>(D, N, f, x, (i64)0, 0)), first, "up to the x of a solution", D, N); same(pairs(am::pell<i64>(D, N, f, (i64)0, y, 0)), first, "up to the y of a solution", D, N); if (x > 1 && (k < 2 || w[k - 2].first < x)) same(pairs(am::pell<i64>(D, N, f, x - 1, (i64)0, 0)), below, "below the x of a solution", D, N); if (y > 1) same(pairs(am::pell<i64>(D, N, f, (i64)0, y - 1, 0)), below, "below the y of a solution", D, N); same(pairs(am::pell<i64>(D, N, f, x, y, (int)w.size())), first, "by everything", D, N); if ((L)w[k - 1].first * u.first < ((L)1 << 50)) same(pairs(am::pell<i64>(D, N, f, (i64)0, (i64)0, (int)k)), first, "the first by count", D, N); }
}
static void generalized() { int NM = mc::tier(70, 150); i64 D = pick_D(mc::tier(110, 260)), N = mc::choose(2 * NM + 1) - NM; generalized_of(D, N, mc::tier(20000, 200000)); }
// wide D with a short expansion: k^2 + c, k^2 + k, (3k)^2 + 2k and so on
static i64 wide_D() { static const i64 K[] = {37, 99, 100, 256, 1001, 4095, 9999, 10000, 20001}; i64 k = K[mc::choose(9)]; int c = mc::choose(15); i64 D = c < 9 ? k * k + c - 4 : c == 9 ? k * k + k : c == 10 ? k * k - k : c == 11 ? 9 * k * k + 2 * k : c == 12 ? 9 * k * k + 6 : c == 13 ? k * k + 2 * k : 4 * k * k + 4 * k + 5; if (square(D)) mc::cut(); return D; }
static void ordinary() { ordinary_of(pick_D(mc::tier(150, 400))); } static void ordinary_wide() { ordinary_of(wide_D()); }
static void generalized_wide() { i64 D = wide_D(); i64 r = isq(D); static const int M[] = {1, -1, 2, -2, 3, 4, -4, 5, 9, 16, -25, 36, 49}; int i = mc::choose(21); i64 N = i < 13 ? M[i] : i == 13 ? D : i == 14 ? -D : i == 15 ? r * r - D : i == 16 ? (r + 1) * (r + 1) - D : i == 17 ? 4 * (r * r - D) : i == 18 ? (r + 2) * (r + 2) - D : i == 19 ? (2 * r + 1) * (2 * r + 1) - 4 * D : (r - 1) * (r - 1) - D; if (N > 100000 || N < -100000) mc::cut(); generalized_of(D, N, 20000 * r); }
// |N| below the square root of D: the least positive solution of every class, in one pass
static void small_norm() {
    i64 D = pick_D(mc::tier(400, 1500)); i64 r = isq(D - 1); i64 N = mc::choose(2 * (int)r + 1) - r; if (!N) mc::cut(); mc::state(mc::hash(D, N + 1000)); P u, half; int len; if (!unit(D, u, len, half)) mc::cut(); if (u.first > 200000) mc::cut(); std::vector<P> w; /* s <= sqrt|N| * unit, i.e. conj(s) * unit >= sqrt|N| in size */ for (auto& p : brute(D, N, (i64)1 << 40, (i64)(sqrtl((long double)(N < 0 ? -N : N)) * (u.second + 1)) + 2)) { L a = (L)p.first * u.first - (L)D * p.second * u.second, b = (L)p.second * u.first - (L)p.first * u.second; /* previous solution of the class: (a, b) */ if (a < 0) a = -a, b = -b; if (!(b > 0)) w.push_back(p); }
    std::vector<i64> xs, ys; am::pellS<i64>(D, N, xs, ys); mc::op(); MC_CHECK(xs.size() == ys.size(), "sizes"); std::vector<P> g; for (size_t i = 0; i < xs.size(); i++) g.push_back(P(xs[i], ys[i])); same(g, w, "least solutions of the classes", D, N);
}
// the expansion itself
static void expansion() {
    i64 D = pick_D(mc::tier(60, 120)), Q0 = mc::choose(49) - 24; if (!Q0) mc::cut(); i64 P0 = mc::choose(25) - 12; if ((P0 * P0 - D) % Q0) mc::cut(); mc::state(mc::hash(D, Q0 + 100, P0 + 100)); mc::op();
    // period from the definition
    auto flo = [&](i64 p, i64 q) { /* floor((p + sqrt D) / q) */ long double v = (p + sqrtl((long double)D)) / q; i64 a = (i64)floorl(v); for (i64 c = a - 1; c <= a + 1; c++) { /* c <= v < c + 1 */ auto le = [&](i64 c) { i64 s = c * q - p; /* c q - p vs sqrt D, direction by the sign of q */ bool b = s < 0 || s * s < D; return q > 0 ? b : !b; }; if (le(c) && !le(c + 1)) return c; } return a; };
    std::vector<i64> p{P0}, q{Q0}, co; std::vector<P> seen; int per = 0; for (;;) { P s(p.back(), q.back()); bool stop = false; for (size_t j = 0; j < seen.size(); j++) if (seen[j] == s) { per = (int)(seen.size() - j); stop = true; break; } if (stop) break; seen.push_back(s); i64 c = flo(s.first, s.second); co.push_back(c); i64 np = c * s.second - s.first; p.push_back(np); q.push_back((D - np * np) / s.second); }
    std::vector<i64> PP{P0}, QQ{Q0}, a, A, B, G; int total = 0; for (int call = 0; call < 3; call++) { int l = am::pell_PQa<i64>(D, PP, QQ, a, A, B, G); MC_CHECK(l == per, "period %d of (%lld + sqrt %lld) / %lld, wanted %d", l, (long long)P0, (long long)D, (long long)Q0, per); size_t n = a.size(); MC_CHECK(PP.size() == n + 1 && QQ.size() == n + 1 && A.size() == n && B.size() == n && G.size() == n, "sizes"); if (call) MC_CHECK((int)n == total + per, "call %d added %d terms", call, (int)n - total); total = (int)n; MC_CHECK(PP[n] == PP[n - l] && QQ[n] == QQ[n - l], "the last %d terms repeat", l);
        L a2 = 0, a1 = 1, b2 = 1, b1 = 0; for (size_t i = 0; i < n; i++) { MC_CHECK(a[i] == flo(PP[i], QQ[i]), "term %zu of (%lld + sqrt %lld) / %lld: %lld", i, (long long)P0, (long long)D, (long long)Q0, (long long)a[i]); MC_CHECK(PP[i + 1] == a[i] * QQ[i] - PP[i] && QQ[i + 1] * QQ[i] == D - PP[i + 1] * PP[i + 1], "P and Q %zu", i); L t = a[i] * a1 + a2; a2 = a1; a1 = t; t = a[i] * b1 + b2; b2 = b1; b1 = t; if (a1 > ((L)1 << 55) || b1 > ((L)1 << 55) || a1 < -((L)1 << 55)) mc::cut(); MC_CHECK(A[i] == a1 && B[i] == b1 && (L)G[i] == Q0 * a1 - P0 * b1, "convergent %zu of (%lld + sqrt %lld) / %lld", i, (long long)P0, (long long)D, (long long)Q0); if (a1 < ((L)1 << 50) && b1 < ((L)1 << 50)) MC_CHECK((L)G[i] * G[i] - (L)D * B[i] * B[i] == (i % 2 ? 1 : -1) * (L)QQ[i + 1] * Q0, "norm %zu", i); } if (a1 > ((L)1 << 40) || a1 < -((L)1 << 40)) break; }
}
MC_SETUP(setup) { mc::add("ordinary", ordinary, 4); mc::add("generalized", generalized, 8); mc::add("ordinary_wide", ordinary_wide, 4); mc::add("generalized_wide", generalized_wide, 8); mc::add("small_norm", small_norm, 8); mc::add("expansion", expansion, 8); }
