// C48 triples and sums of two squares: every bound and every n in the bounds compared with brute force.
// MC_BOUNDS: every bound up to 260 (thorough 600) for Pythagorean, Eisenstein (60 and 120 degrees) and almost-Pythagorean triples, all and primitive; every leg up to 600 (thorough 2500); every invariant k up to 90 (thorough 300) with every bound up to 60 and 400; every n up to 30000 (thorough 200000) as a sum of two squares, and about 3000 (thorough 20000) products of up to 12 prime powers to 2^31 and 2^63; every prime up to 600 (thorough 2500) with every d below it for x^2 + d y^2
// MC_ASSUME: bounds are at least 1; generated triples with invariant k = 0 or 1 have positive legs; cornacchia is asked only where a solution exists
// MC_FLAGS: -O1
#include "mc.h"
#include <utility>
#include <stdint.h>
#include <math.h>
#include <algorithm>
#include <array>
#include <vector>
#include <unordered_map>
#include <functional>
#include "altruct/algorithm/math/modulos.h"
#include "altruct/algorithm/math/triples.h"
#include "altruct/algorithm/math/squares_r.h"
namespace am = altruct::math; typedef int64_t i64; typedef std::array<i64, 3> T3; typedef std::pair<i64, i64> P;
static i64 isq(i64 t) { if (t < 0) return -1; i64 x = (i64)sqrtl((long double)t); while (x * x > t) x--; while ((x + 1) * (x + 1) <= t) x++; return x; } static i64 g2(i64 a, i64 b) { while (b) { i64 t = a % b; a = b; b = t; } return a; }
template<class I> static std::vector<T3> arr(const std::vector<am::triple<I>>& v) { std::vector<T3> r; for (auto& t : v) r.push_back(T3{{(i64)t.a, (i64)t.b, (i64)t.c}}); std::sort(r.begin(), r.end()); return r; }
static std::vector<T3> prim(const std::vector<T3>& v) { std::vector<T3> r; for (auto& t : v) if (g2(g2(t[0], t[1]), t[2]) == 1) r.push_back(t); return r; }
static void __attribute__((noinline)) same(const std::vector<T3>& g, const std::vector<T3>& w, const char* what, i64 n) { mc::op(); if (g == w) return; for (auto& t : w) { auto c = std::count(g.begin(), g.end(), t); MC_CHECK(c == 1, "%s up to %lld: (%lld, %lld, %lld) listed %d times", what, (long long)n, (long long)t[0], (long long)t[1], (long long)t[2], (int)c); } for (auto& t : g) MC_CHECK(std::count(w.begin(), w.end(), t), "%s up to %lld: (%lld, %lld, %lld) listed", what, (long long)n, (long long)t[0], (long long)t[1], (long long)t[2]); MC_CHECK(false, "%s up to %lld", what, (long long)n); }
// 0 < a <= b: the third side by a quadratic form
static std::vector<T3> pyth(i64 n) { std::vector<T3> r; for (i64 a = 1; a < n; a++) for (i64 b = a; b < n && a * a + b * b <= n * n; b++) { i64 c = isq(a * a + b * b); if (c * c == a * a + b * b) r.push_back(T3{{a, b, c}}); } return r; }
static std::vector<T3> eis60(i64 n) { std::vector<T3> r; for (i64 a = 1; a <= n; a++) for (i64 c = a; c <= n; c++) { i64 s = a * a - a * c + c * c, b = isq(s); if (b * b == s) r.push_back(T3{{a, b, c}}); } std::sort(r.begin(), r.end()); return r; }
static std::vector<T3> eis120(i64 n) { std::vector<T3> r; for (i64 a = 1; a <= n; a++) for (i64 b = a; b <= n && a * a + a * b + b * b <= n * n; b++) { i64 s = a * a + a * b + b * b, c = isq(s); if (c * c == s) r.push_back(T3{{a, b, c}}); } return r; }
static std::vector<T3> almost(i64 n) { std::vector<T3> r; for (i64 a = 1; a * a <= n * n + 1; a++) for (i64 b = 1; a * a + b * b - 1 <= n * n; b++) { i64 s = a * a + b * b - 1, c = isq(s); if (c * c == s) r.push_back(T3{{a, b, c}}); } return r; }
template<class I> static void all_triples() {
    i64 n = 1 + mc::choose(mc::tier(260, 600)); mc::state(mc::hash(n, (int)sizeof(I))); auto p = pyth(n); same(arr(am::pythagorean_triples<I>((I)n, false)), p, "Pythagorean triples", n); same(arr(am::pythagorean_triples<I>((I)n, true)), prim(p), "primitive Pythagorean triples", n);
    auto e = eis60(n); same(arr(am::eisenstein_triples60<I>((I)n, false)), e, "60 degree triples", n); same(arr(am::eisenstein_triples60<I>((I)n, true)), prim(e), "primitive 60 degree triples", n); auto f = eis120(n); same(arr(am::eisenstein_triples120<I>((I)n, false)), f, "120 degree triples", n); same(arr(am::eisenstein_triples120<I>((I)n, true)), prim(f), "primitive 120 degree triples", n);
    auto q = almost(n); same(arr(am::almost_pythagorean_triples<I>((I)n)), q, "almost-Pythagorean triples", n); std::vector<T3> vis; am::almost_pythagorean_triples<I>((I)n, [&](I a, I b, I c) { vis.push_back(T3{{(i64)a, (i64)b, (i64)c}}); }); std::sort(vis.begin(), vis.end()); same(vis, q, "visited almost-Pythagorean triples", n); vis.clear(); am::pythagorean_triples<I>((I)n, false, [&](I a, I b, I c) { vis.push_back(T3{{(i64)a, (i64)b, (i64)c}}); }); std::sort(vis.begin(), vis.end()); same(vis, p, "visited Pythagorean triples", n);
}
static void triples_int() { all_triples<int>(); } static void triples_i64() { all_triples<i64>(); }
static std::vector<std::pair<int, int>> fact(int n) { std::vector<std::pair<int, int>> f; for (int p = 2; p * p <= n; p++) { int e = 0; while (n % p == 0) n /= p, e++; if (e) f.push_back({p, e}); } if (n > 1) f.push_back({n, 1}); return f; }
template<class I> static void legs() { int a = 1 + mc::choose(mc::tier(600, 2500)); mc::state(mc::hash(a, (int)sizeof(I))); std::vector<T3> w; for (i64 d = 1; d < a; d++) if ((i64)a * a % d == 0) { i64 e = (i64)a * a / d; if ((e - d) % 2 == 0 && e > d) w.push_back(T3{{a, (e - d) / 2, (e + d) / 2}}); } /* a^2 = (c - b)(c + b) */ std::sort(w.begin(), w.end()); if (a <= 60) { std::vector<T3> x; for (i64 b = 1; b <= (i64)a * a; b++) { i64 s = a * a + b * b, c = isq(s); if (c * c == s) x.push_back(T3{{a, b, c}}); } MC_CHECK(x == w, "reference"); } same(arr(am::pythagorean_triples_fixed_leg<I>((I)a, fact(a))), w, "triples with leg", a); std::vector<T3> v; am::pythagorean_triples_fixed_leg<I>((I)a, fact(a), [&](I b, I c) { v.push_back(T3{{a, (i64)b, (i64)c}}); }); std::sort(v.begin(), v.end()); same(v, w, "visited triples with leg", a); }
static void legs_int() { legs<int>(); } static void legs_i64() { legs<i64>(); }
static void invariant() { int k = mc::choose(mc::tier(91, 301)), n = mc::choose(mc::tier(61, 90)); if (n == mc::tier(60, 89)) n = mc::tier(400, 1000); mc::state(mc::hash(k, n)); auto g = am::pythagorean_triples_generators<int>(k); static int lastk = -1, lastn = 0; static std::vector<T3> all; int N = std::max(n, 60); if (lastk != k || lastn != N) { all.clear(); lastk = k; lastn = N; for (i64 a = k < 2; a <= N; a++) for (i64 b = a; b <= N && a * a + b * b + k <= N * N; b++) { i64 s = a * a + b * b + k, c = isq(s); if (c * c == s && g2(g2(a, b), c) == 1) all.push_back(T3{{a, b, c}}); } } std::vector<T3> w; for (auto& t : all) if (t[2] <= n) w.push_back(t); auto got = arr(am::generate_pythagorean_triples<int>(n, g)); for (auto& t : got) if (t[0] > t[1]) std::swap(t[0], t[1]); std::sort(got.begin(), got.end()); same(got, w, "triples with the invariant", n); }
// sums of two squares
template<class I> static void sums() {
    int blk = mc::choose(mc::tier(60, 400)); mc::state(mc::hash(blk, (int)sizeof(I))); auto tbl = am::squares_r_prime_table<I>(300); std::unordered_map<I, std::pair<I, I>> none;
    for (int n = std::max(1, blk * 500); n < blk * 500 + 500; n++) { mc::op(); auto f0 = fact(n); std::vector<std::pair<I, int>> f; for (auto& x : f0) f.push_back({(I)x.first, x.second}); std::vector<std::pair<I, I>> u, a; for (i64 x = 0; x * x <= n; x++) { i64 y = isq(n - x * x); if (y * y + x * x != n) continue; if (x <= y) u.push_back({(I)x, (I)y}); for (int s = 0; s < 4; s++) { if ((s & 1 && !x) || (s & 2 && !y)) continue; a.push_back({(I)(s & 1 ? -x : x), (I)(s & 2 ? -y : y)}); } } std::sort(u.begin(), u.end()); std::sort(a.begin(), a.end());
        MC_CHECK(am::squares_r(f, true) == (I)u.size(), "%d is a sum of two squares in %zu ways, got %lld", n, u.size(), (long long)am::squares_r(f, true)); MC_CHECK(am::squares_r(f, false) == (I)a.size(), "%d has %zu representations, got %lld", n, a.size(), (long long)am::squares_r(f, false)); MC_CHECK((am::squares_r_list<I, I>(f, true)) == u, "representations of %d", n); MC_CHECK((am::squares_r_list<I, I>(f, false)) == a, "all representations of %d", n);
        auto t2 = tbl; if (n % 7 < 2) { MC_CHECK((am::squares_r_list<I, I>(f, true, t2)) == u && (am::squares_r_list<I, I>(f, false, t2)) == a, "representations of %d with a table", n); MC_CHECK((am::squares_r_list<I, I>(f, true, t2)) == u, "representations of %d with a table used before", n); I hi = (I)isq(n) + 1; for (I m = 1; m <= hi; m = m < 4 || m > hi - 4 ? m + 1 : m + 1 + (hi - m) / 6) { std::vector<std::pair<I, I>> w; for (auto& p : u) if (p.second <= m) w.push_back(p); MC_CHECK((am::squares_r_list<I, I>(f, true, t2, m)) == w, "representations of %d with terms up to %lld", n, (long long)m); } } MC_CHECK((am::squares_r_list<I, I>(f, true, none)) == u, "representations of %d with a growing table", n); auto fr = f; std::reverse(fr.begin(), fr.end()); MC_CHECK((am::squares_r_list<I, I>(fr, true)) == u && (am::squares_r_list<I, I>(fr, false)) == a && am::squares_r(fr, true) == (I)u.size(), "representations of %d with the factors reversed", n); }
}
static void sums_int() { sums<int>(); } static void sums_i64() { sums<i64>(); }
// products of many primes 1 mod 4, where the representations multiply
static void rich() { static const int ps[] = {2, 3, 5, 13, 17, 29}; int e[6]; i64 n = 1; std::vector<std::pair<i64, int>> f; mc::H h; for (int i = 0; i < 6; i++) { e[i] = mc::choose(i < 2 ? 4 : 3); h(e[i]); for (int k = 0; k < e[i]; k++) n *= ps[i]; if (e[i]) f.push_back({ps[i], e[i]}); } mc::state(h.h); mc::op(); std::vector<P> u; for (i64 x = 0; x * x * 2 <= n; x++) { i64 y = isq(n - x * x); if (y * y + x * x == n) u.push_back(P(x, y)); if (n > 60000000 && x > 100000) break; } if (n > 60000000) mc::cut(); MC_CHECK((am::squares_r_list<i64, i64>(f, true)) == u, "representations of %lld", (long long)n); MC_CHECK(am::squares_r(f, true) == (i64)u.size(), "number of representations of %lld", (long long)n); MC_CHECK((((i64)am::squares_r_list<i64, i64>(f, false).size()) == am::squares_r(f, false)), "number of all representations of %lld", (long long)n); }
template<class I> static void primes_at(I p) { mc::op(); auto r = am::squares_r_prime<I>(p); MC_CHECK(r.first <= r.second && r.first > 0 && (__int128)r.first * r.first + (__int128)r.second * r.second == p, "%lld as a sum of two squares: %lld, %lld", (long long)p, (long long)r.first, (long long)r.second); }
static bool prime(i64 n) { for (i64 p = 2; p * p <= n; p++) if (n % p == 0) return false; return n > 1; }
static void prime_sums() { int blk = mc::choose(mc::tier(100, 400)); mc::state(mc::hash(blk)); for (i64 p = blk * 1000; p < blk * 1000 + 1000; p++) if (p == 2 || (p % 4 == 1 && prime(p))) { primes_at<int>((int)p); primes_at<i64>(p); } i64 q = ((i64)1 << 31) - 1 - blk * 64; for (int found = 0; found < 2; q--) if (q % 4 == 1 && prime(q)) { primes_at<int>((int)q); found++; } q = ((i64)1 << (31 + blk % 10)) + blk * 40; for (;; q++) if (q % 4 == 1 && prime(q)) { primes_at<i64>(q); break; } }
template<class I> static void norm_form() { int lim = mc::tier(600, 2500); static std::vector<int> ps; if (ps.empty()) for (int p = 3; p <= lim; p++) if (prime(p)) ps.push_back(p); int p = ps[mc::choose((int)ps.size())]; mc::state(mc::hash(p, (int)sizeof(I))); std::vector<char> can(p + 1, 0); for (int y = 1; y * y <= p; y++) for (int x = 0; x * x < p; x++) if ((p - x * x) % (y * y) == 0) can[(p - x * x) / (y * y)] = 1; for (int d = 1; d < p; d++) if (can[d]) { mc::op(); auto r = am::cornacchia<I>((I)d, (I)p); MC_CHECK((i64)r.first * r.first + (i64)d * r.second * r.second == p, "x^2 + %d y^2 = %d: (%lld, %lld)", d, p, (long long)r.first, (long long)r.second); } }
static void norm_int() { norm_form<int>(); } static void norm_i64() { norm_form<i64>(); }
static void tables() { int n = mc::choose(mc::tier(400, 1500)); mc::state(mc::hash(n)); mc::op(); auto t = am::squares_r_prime_table<int>(n); for (int p = 2; p <= n; p++) if (prime(p) && p % 4 != 3) { auto it = t.find(p); MC_CHECK(it != t.end() && it->second.first <= it->second.second && it->second.first * it->second.first + it->second.second * it->second.second == p, "table up to %d lacks %d", n, p); } for (auto& e : t) MC_CHECK(e.first <= n && e.second.first * e.second.first + e.second.second * e.second.second == e.first, "table entry %d", e.first); }
// large numbers: the number of representations is that of the divisor formula, all of them are distinct, sorted and right
template<class I> static void wide_sums() {
    static const i64 ps[] = {2, 3, 7, 5, 13, 65537, 2147483647LL, 2147483629LL, 1000000009LL, 1000000000061LL, 2305843009213693921LL, 4611686018427387817LL}; static const int me[] = {4, 2, 2, 3, 2, 2, 2, 1, 2, 1, 1, 1}; // exponents 0..me, some of them larger below
    static std::vector<std::vector<std::pair<I, int>>> all; if (all.empty()) { std::vector<std::pair<I, int>> f; const i64 LIM = sizeof(I) == 4 ? 2147483647LL : 9223372036854775807LL; std::function<void(int, i64)> go = [&](int i, i64 n) { if (i == 12) { if (n > 30000) all.push_back(f); return; } go(i + 1, n); i64 m = n; for (int e = 1; e <= me[i] && m <= LIM / ps[i]; e++) { m *= ps[i]; f.push_back({(I)ps[i], e}); go(i + 1, m); f.pop_back(); } }; go(0, 1);
        for (i64 b : {2, 3, 5, 13}) { int e = 1; i64 n = b; while (n <= LIM / b) { n *= b; e++; all.push_back({{(I)b, e}}); } } }
    size_t step = all.size() / (mc::thorough() ? 20000 : 3000) + 1; auto f = all[mc::choose((int)((all.size() - 1) / step) + 1) * step]; mc::H h; h((int)sizeof(I)); i64 n = 1, B = 1; bool sq = true, zero = false; for (auto& x : f) { h(x.first)(x.second); for (int k = 0; k < x.second; k++) n *= x.first; if (x.second % 2) sq = false; if (x.first % 4 == 1) B *= x.second + 1; if (x.first % 4 == 3 && x.second % 2) zero = true; } mc::state(h.h); mc::op();
    i64 tot = zero ? 0 : 4 * B; bool dbl = !zero && n % 2 == 0 && isq(n / 2) * isq(n / 2) == n / 2; // with x = y
    i64 uni = zero ? 0 : (B + (sq || dbl)) / 2;
    auto a = am::squares_r_list<I, I>(f, false), u = am::squares_r_list<I, I>(f, true); auto good = [&](const std::vector<std::pair<I, I>>& v, bool uq) { for (size_t i = 0; i < v.size(); i++) { i64 x = v[i].first, y = v[i].second; if ((__int128)x * x + (__int128)y * y != n || (uq && (x < 0 || x > y)) || (i && !(v[i - 1] < v[i]))) return false; } return true; };
    MC_CHECK(am::squares_r(f, false) == (I)tot && am::squares_r(f, true) == (I)uni, "%lld has %lld representations (%lld up to sign and order), got %lld and %lld", (long long)n, (long long)tot, (long long)uni, (long long)am::squares_r(f, false), (long long)am::squares_r(f, true));
    MC_CHECK((i64)a.size() == tot && good(a, false), "representations of %lld: %zu listed, wanted %lld", (long long)n, a.size(), (long long)tot); MC_CHECK((i64)u.size() == uni && good(u, true), "representations of %lld up to sign and order: %zu listed, wanted %lld", (long long)n, u.size(), (long long)uni);
    if (f.size() > 1) { std::reverse(f.begin(), f.end()); MC_CHECK((am::squares_r_list<I, I>(f, true)) == u, "representations of %lld with the factors in another order", (long long)n); }
}
static void wide_int() { wide_sums<int>(); } static void wide_i64() { wide_sums<i64>(); }
MC_SETUP(setup) { mc::add("triples_int", triples_int, 8); mc::add("triples_i64", triples_i64, 8); mc::add("legs_int", legs_int, 2); mc::add("legs_i64", legs_i64, 2); mc::add("invariant", invariant, 8); mc::add("sums_int", sums_int, 8); mc::add("sums_i64", sums_i64, 8); mc::add("rich", rich, 8); mc::add("prime_sums", prime_sums, 8); mc::add("norm_int", norm_int, 4); mc::add("norm_i64", norm_i64, 4); mc::add("wide_int", wide_int, 4); mc::add("wide_i64", wide_i64, 8); mc::add("tables", tables, 2); }
