// C46 summatory functions: every bound, sieve size, table prefill and parameter combination on a grid, compared with the direct sum.
// MC_BOUNDS: floor sums with |a|,|b|<=8, |q|<=8, n<=10 (thorough 13/13/13/16); power sums up to exponent 8 (12) and n 40 (100) under every ordered pair of moduli of one type; quotient sums against every indicator function up to n 64 (thorough 160); prime sums for n<=600 (3000) at every quotient; Mertens, totient, square-free and multiplicative sums for n<=160 (1200) with every prefill and prime table size; Dirichlet algebra on tables of up to 8193 (65537) entries around powers of 2, 3 and 5, and for every assignment of {0,1,2} to the prime powers below 10 (12); sums over primes, Mertens, totient, squarefree, divisor and multiplicative sums for 10 bounds between 10^9 and 4.3*10^9 at 5 quotients each
// MC_ASSUME: tables handed over are correct for the range they are said to cover; sums with division use a prime modulus above the divisors; prime_pi tables reach the next prime beyond the documented bound
// MC_FLAGS: -O1
#include "mc.h"
#include <utility>
#include <stdint.h>
#include <cmath>
#include <algorithm>
#include <functional>
#include <map>
#include <unordered_map>
#include <vector>
#include "altruct/algorithm/math/sums.h"
#include "altruct/algorithm/math/divisor_sums.h"
#include "altruct/algorithm/math/mertens.h"
#include "altruct/algorithm/math/prime_counting.h"
#include "altruct/algorithm/math/prime_pi.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
namespace am = altruct::math; namespace ac = altruct::container; typedef int64_t i64; typedef am::moduloX<int> X; typedef am::modulo<int, 1009> S; typedef am::modulo<int, 1000000007> B; typedef am::fraction<i64> Q;
typedef am::modulo<int, 46, am::modulo_storage::STATIC> R; // modulus chosen at run time, shared by all values
static i64 mod(i64 a, i64 m) { a %= m; return a < 0 ? a + m : a; } static i64 fdiv(i64 a, i64 q) { i64 r = a / q; return (a % q != 0 && ((a < 0) != (q < 0))) ? r - 1 : r; }
// a number of type T for the integer i, and what number a T is modulo Kit<T>::mod()
template<class T> struct Kit;
static int MODX = 1009;
template<> struct Kit<X> { static X of(i64 i) { return X((int)mod(i, MODX), MODX); } static bool is(const X& x, i64 w) { return x.M() == MODX && x.v == mod(w, MODX); } static i64 red(i64 w) { return mod(w, MODX); } };
template<> struct Kit<R> { static R of(i64 i) { return R((int)mod(i, R::M())); } static bool is(const R& x, i64 w) { return x.v == mod(w, R::M()); } static i64 red(i64 w) { return mod(w, R::M()); } };
template<> struct Kit<S> { static S of(i64 i) { return S((int)mod(i, 1009)); } static bool is(const S& x, i64 w) { return x.v == mod(w, 1009); } static i64 red(i64 w) { return mod(w, 1009); } };
template<> struct Kit<B> { static B of(i64 i) { return B((int)mod(i, 1000000007)); } static bool is(const B& x, i64 w) { return x.v == mod(w, 1000000007); } static i64 red(i64 w) { return mod(w, 1000000007); } };
template<> struct Kit<i64> { static i64 of(i64 i) { return i; } static bool is(i64 x, i64 w) { return x == w; } static i64 red(i64 w) { return w; } };
template<> struct Kit<int> { static int of(i64 i) { return (int)i; } static bool is(int x, i64 w) { return x == w; } static i64 red(i64 w) { return w; } };
template<> struct Kit<Q> { static Q of(i64 i) { return Q(i); } static bool is(const Q& x, i64 w) { return x.p == w && x.q == 1; } static i64 red(i64 w) { return w; } };
// elementary tables, by definition
static const int LIM = 1 << 18;
static std::vector<int> lpf, PR; static std::vector<signed char> mu_; static std::vector<int> phi_, pi_;
static void tables() { if (lpf.size()) return; lpf.assign(LIM, 0); mu_.assign(LIM, 0); phi_.assign(LIM, 0); pi_.assign(LIM, 0); for (int i = 2; i < LIM; i++) if (!lpf[i]) { PR.push_back(i); for (int j = i; j < LIM; j += i) if (!lpf[j]) lpf[j] = i; } mu_[1] = 1; phi_[1] = 1; for (int i = 2; i < LIM; i++) { int p = lpf[i], r = i / p; pi_[i] = pi_[i - 1] + (p == i); if (r % p == 0) { mu_[i] = 0; phi_[i] = phi_[r] * p; } else { mu_[i] = -mu_[r]; phi_[i] = phi_[r] * (p - 1); } } }
MC_SETUP(setup) { tables(); }
static i64 is2(i64 n) { i64 r = (i64)std::sqrt((double)n); while (r * r > n) r--; while ((r + 1) * (r + 1) <= n) r++; return r; } static i64 ic2(i64 n) { i64 r = 0; while ((r + 1) * (r + 1) * (r + 1) <= n) r++; return r; }
static std::vector<int> primes_to(i64 n) { std::vector<int> r; for (int p : PR) { if (p > n) break; r.push_back(p); } r.shrink_to_fit(); return r; }
static i64 wpow(i64 b, int e) { __int128 r = 1; for (int i = 0; i < e; i++) r = r * b % 1000000007LL; return (i64)r; }
static i64 ipw(i64 b, int e) { i64 r = 1; while (e--) r *= b; return r; }
static i64 mpw(i64 b, int e, i64 m) { i64 r = 1 % m; b = mod(b, m); while (e--) r = r * b % m; return r; }

// ---------------------------------------------------------------- sums.h
template<class T, class I> static void ratio() {
    int A = mc::tier(8, 13), N = mc::tier(10, 16); bool sg = std::is_signed<I>::value; i64 a = sg ? mc::choose(2 * A + 1) - A : mc::choose(A + 1), b = sg ? mc::choose(2 * A + 1) - A : mc::choose(A + 1), q = sg ? mc::choose(2 * A) - A : mc::choose(A) + 1; if (sg && q >= 0) q++;
    i64 w = 0; mc::state(mc::hash(a, b, q)); if (sg) { auto r = am::sum_ratio<T, I>((I)a, (I)b, (I)q, (I)-2, Kit<T>::of(0)); MC_CHECK(Kit<T>::is(r, 0), "floor sum of length -2"); }
    for (int n = 0; n <= N; n++) { mc::op(); auto r = am::sum_ratio<T, I>((I)a, (I)b, (I)q, (I)n, Kit<T>::of(0)); MC_CHECK(Kit<T>::is(r, w), "Sum[Floor[(%lld k + %lld) / %lld], {k, 0, %d}], wanted %lld", (long long)a, (long long)b, (long long)q, n - 1, (long long)w); w += fdiv(a * n + b, q); }
}
MC_SCENARIO(floor_sum_int, 4) { ratio<int, int>(); }
MC_SCENARIO(floor_sum_i64, 4) { ratio<i64, i64>(); }
MC_SCENARIO(floor_sum_wide, 4) { ratio<i64, int>(); }
MC_SCENARIO(floor_sum_modx, 4) { MODX = mc::choose(2) ? 101 : 6; ratio<X, int>(); }
MC_SCENARIO(floor_sum_static, 4) { ratio<S, i64>(); }
MC_SCENARIO(floor_sum_long, 1) { // long sums, all carries of the Euclidean descent
    int q = mc::choose(mc::tier(40, 120)) + 1, a = mc::choose(mc::tier(60, 150)), b = mc::choose(5) * 7 - 14; mc::state(mc::hash(q, a, b)); i64 w = 0; for (int n = 0; n <= 200; n++) { if (n < 4 || n % 13 == 0 || n == q || n == q + 1) { mc::op(); i64 g = am::sum_ratio<i64, i64>(a, b, q, n); MC_CHECK(g == w, "Sum[Floor[(%d k + %d) / %d], {k, 0, %d}] = %lld, wanted %lld", a, b, q, n - 1, (long long)g, (long long)w); } w += fdiv((i64)a * n + b, q); } }
MC_SCENARIO(plain_sum, 1) { int a = mc::choose(9) - 4, l = mc::choose(10); mc::state(mc::hash(a, l)); int b = a + l - 1; std::vector<int> seen(24, 0); i64 w = 0; for (int k = a; k <= b; k++) w += k * k * k + 1; i64 g = am::sum<i64>([&](int k) { seen.at(k + 8)++; return (i64)k * k * k + 1; }, a, b); mc::op(); MC_CHECK(g == w, "sum from %d to %d = %lld, wanted %lld", a, b, (long long)g, (long long)w); for (int k = a; k <= b; k++) MC_CHECK(seen[k + 8] == 1, "term %d used %d times", k, seen[k + 8]); if (a >= 0) { int calls = 0; unsigned ua = (unsigned)a, ub = ua + (unsigned)l; i64 u = am::sum<i64>([&](unsigned k) { MC_CHECK(++calls <= l + 1, "unsigned sum from %u to %u does not stop", ua, ub); return (i64)k + 1; }, ua, ub), wu = 0; for (unsigned k = ua; k <= ub; k++) wu += k + 1; MC_CHECK(u == wu, "unsigned sum from %u to %u", ua, ub); } MODX = 7; X x = am::sum<X>([&](int k) { return Kit<X>::of(k); }, a, b, Kit<X>::of(0)); i64 s = 0; for (int k = a; k <= b; k++) s += k; MC_CHECK(Kit<X>::is(x, s), "sum of k from %d to %d modulo 7", a, b); }
// the result depends on the arguments alone: every ordered history of up to three requests with different moduli and exponents
template<class T> static void power_sums(int P, int N, bool wrap) { for (int p = 0; p <= P; p++) { i64 w = 0; for (int n = 0; n <= N; n++) { mc::op(); T r = am::sum_pow<T>(p, n, Kit<T>::of(1)); MC_CHECK(Kit<T>::is(r, w), "Sum[k^%d, {k, 1, %d}] wrong, wanted %lld", p, n, (long long)w); w = wrap ? (w + wpow(n + 1, p)) % 1000000007LL : w + ipw(n + 1, p); } } }
MC_SCENARIO(power_sum, 1) { mc::state(mc::hash(0)); power_sums<B>(mc::tier(10, 16), mc::tier(30, 100), true); power_sums<i64>(3, mc::tier(60, 300), false); power_sums<int>(3, 40, false); power_sums<Q>(mc::tier(6, 7), 12, false); for (int p = 4; p <= 6; p++) { double w = 0; for (int n = 1; n <= 20; n++) { w += std::pow(n, p); double g = am::sum_pow<double>(p, n); MC_CHECK(std::fabs(g - w) <= 1e-9 * w, "Sum[k^%d, {k, 1, %d}] = %.15g, wanted %.15g", p, n, g, w); } } }
static const int mods[] = {1009, 101, 23, 10007};
template<class T, class F> static void power_history(F set) { int L = mc::tier(3, 4); mc::H h; for (int i = 0; i < L; i++) { int m = mods[mc::choose(4)], p = mc::choose(3) * 3 + mc::choose(2); set(m); h(m)(p); mc::state(h.h); i64 w = 0; for (int n = 0; n <= 12; n++) { mc::op(); T r = am::sum_pow<T>(p, n, Kit<T>::of(1)); MC_CHECK(Kit<T>::is(r, w), "Sum[k^%d, {k, 1, %d}] modulo %d wrong, wanted %lld", p, n, m, (long long)w); w = (w + mpw(n + 1, p, m)) % m; } } }
MC_SCENARIO(power_sum_history_modx, 4) { power_history<X>([](int m) { MODX = m; }); }
MC_SCENARIO(power_sum_history_static, 4) { power_history<R>([](int m) { R::M() = m; }); }
MC_SCENARIO(power_sum_tables, 1) { int p = mc::choose(9), extra = mc::choose(4); mc::state(mc::hash(p, extra)); std::vector<Q> b{Q(1), Q(1, 2), Q(1, 6), Q(0), Q(-1, 30), Q(0), Q(1, 42), Q(0), Q(-1, 30), Q(0), Q(5, 66), Q(0), Q(-691, 2730)}; b.resize(p + 1 + extra); i64 w = 0; for (int n = 0; n <= 8; n++) { mc::op(); Q r = am::sum_pow<Q>(p, n, b); MC_CHECK(Kit<Q>::is(r, w), "Sum[k^%d, {k, 1, %d}] from the table", p, n); w += ipw(n + 1, p); } }
MC_SCENARIO(power_exponential_sum, 2) { int k = mc::choose(4), m = mc::choose(mc::tier(6, 9)); i64 M = k == 0 ? 1009 : k == 1 ? 13 : k == 2 ? 1000000007 : 1009; i64 x = mc::choose(k == 1 ? 13 : mc::tier(12, 40)); if (x == 1) mc::cut(); if (k == 2) x = -x; mc::state(mc::hash(k, m, x)); if (k == 2 && x == 0) x = 5; i64 w = 0; for (int n = 0; n <= 15; n++) { mc::op(); bool ok; if (k <= 1) { MODX = (int)M; ok = Kit<X>::is(am::sum_powx(m, Kit<X>::of(x), n), w); } else if (k == 2) ok = Kit<B>::is(am::sum_powx(m, Kit<B>::of(x), n), w); else ok = Kit<S>::is(am::sum_powx(m, Kit<S>::of(x), (i64)n), w); MC_CHECK(ok, "Sum[k^%d %lld^k, {k, 1, %d}] modulo %lld, wanted %lld", m, (long long)x, n, (long long)M, (long long)w); w = (w + mpw(n + 1, m, M) * (mpw(x, n + 1, M))) % M; } }
template<class T, class I, class F1, class F2> static T two(F1 sf, F2 g, I n, const T&) { return am::sum_sqrt2m<T>(sf, g, n); }
template<class T, class I, class F1, class F2> static X two(F1 sf, F2 g, I n, const X& z) { return am::sum_sqrt2m<X, I, F1, F2>(sf, g, n, z); }
template<class T, class I> static void quotient_sums() {
    int N = mc::tier(64, 160), n = mc::choose(N + 1); mc::state(mc::hash(n)); T z = Kit<T>::of(0); auto one = [&](bool b) { return Kit<T>::of(b ? 1 : 0); };
    for (int v = 1; v <= n; v++) { mc::op(); i64 w = 0; for (int k = 1; k <= n; k++) w += n / k == v; auto r = am::sum_sqrt<T>([&](I x) { return one(x == (I)v); }, (I)n, z); MC_CHECK(Kit<T>::is(r, w), "number of k up to %d with floor(%d/k)=%d, wanted %lld", n, n, v, (long long)w); }
    std::vector<std::vector<int>> c(n + 1, std::vector<int>(n + 1, 0)); for (int k = 1; k <= n; k++) c[k][n / k]++; int st = n > 70 ? 3 : 1;
    for (int a = 1; a <= n; a += st) for (int v = 1; v <= n; v++) { mc::op(); auto f = [&](I k) { return one(k == (I)a); }; auto sf = [&](I k) { return one(k >= (I)a); }; auto g = [&](I x) { return one(x == (I)v); }; bool ok1 = Kit<T>::is(two<T, I>(sf, g, (I)n, z), c[a][v]), ok2 = Kit<T>::is(am::sum_sqrt2m<T>(f, sf, g, (I)n, z), c[a][v]), ok3 = Kit<T>::is(am::sum_sqrt2<T>([&](I k, I m) { return one(k >= (I)a && m == (I)v); }, (I)n, z), c[a][v]); MC_CHECK(ok1 && ok2 && ok3, "sum over k up to %d of [k=%d][n/k=%d]: %s wrong", n, a, v, ok1 ? ok2 ? "sum_sqrt2" : "sum_sqrt2m with f" : "sum_sqrt2m"); }
}
MC_SCENARIO(quotient_sums_int, 8) { quotient_sums<int, int>(); }
MC_SCENARIO(quotient_sums_i64, 8) { quotient_sums<i64, i64>(); }
MC_SCENARIO(quotient_sums_modx, 8) { MODX = 3; quotient_sums<X, i64>(); }
MC_SCENARIO(quotient_sums_unsigned, 8) { quotient_sums<i64, unsigned>(); }

// ---------------------------------------------------------------- prime_counting.h, prime_pi.h
template<class T, class I> static void prime_sums(int Z, std::initializer_list<int> ms) {
    int n = mc::choose(mc::tier(600, 3000)) + 1; mc::state(mc::hash(n)); for (int m : ms) { if (m) MODX = m; for (int z = 0; z <= Z; z++) { auto s = am::prime_power_sum_sqrt<T, I>(z, (I)n, Kit<T>::of(1)); std::vector<i64> w(n + 1, 0); for (int i = 2; i <= n; i++) w[i] = Kit<T>::red(w[i - 1] + (lpf[i] != i ? 0 : m ? mpw(i, z, m) : sizeof(T) < 8 && Z > 3 ? wpow(i, z) : ipw(i, z))); for (int k = 1; k <= n; k++) { mc::op(); MC_CHECK(Kit<T>::is(s[n / k], w[n / k]), "sum of p^%d over primes up to %d (floor(%d/%d)), modulus %d, wanted %lld", z, n / k, n, k, m, (long long)w[n / k]); } if (z == 1) { MC_CHECK(Kit<T>::is((am::prime_sum<T, I>((I)n, Kit<T>::of(1))), w[n]), "prime sum up to %d", n); auto q = am::prime_sum_sqrt<T, I>((I)n, Kit<T>::of(1)); for (int k = 1; k <= n; k++) MC_CHECK(Kit<T>::is(q[n / k], w[n / k]), "prime sum at floor(%d/%d)", n, k); } } }
    if (n == 1) MC_CHECK(Kit<T>::is((am::prime_sum<T, I>(0, Kit<T>::of(1))), 0), "prime sum up to 0"); }
MC_SCENARIO(prime_power_sums_i64, 8) { prime_sums<i64, i64>(3, {0}); }
MC_SCENARIO(prime_power_sums_int, 4) { prime_sums<i64, int>(3, {0}); }
MC_SCENARIO(prime_power_sums_modx, 8) { prime_sums<X, int>(3, {1009, 23, 7}); }
MC_SCENARIO(prime_power_sums_field, 8) { prime_sums<B, i64>(5, {0}); }
template<class I> static void prime_counts() { int n = mc::choose(mc::tier(1500, 6000)); mc::state(mc::hash(n)); mc::op(); MC_CHECK(am::prime_pi<I>((I)n) == (I)pi_[n], "prime_pi(%d)", n); i64 c[4] = {0, 0, 0, 0}; std::vector<int> c1(n + 1, 0), c3(n + 1, 0); for (int i = 1; i <= n; i++) { c1[i] = c1[i - 1] + (lpf[i] == i && i % 4 == 1); c3[i] = c3[i - 1] + (lpf[i] == i && i % 4 == 3); } MC_CHECK(am::prime_pi1<I>((I)n) == (I)c1[n], "prime_pi1(%d)", n); MC_CHECK(am::prime_pi3<I>((I)n) == (I)c3[n], "prime_pi3(%d)", n); if (!n) return;
    auto s = am::prime_pi_sqrt<I>((I)n); auto t = am::prime_pi13_sqrt<I>((I)n); MC_CHECK(t.size() == 2, "prime_pi13_sqrt(%d) returned %zu maps", n, t.size()); for (int k = 1; k <= n; k++) { mc::op(); int v = n / k; MC_CHECK(s[v] == (I)pi_[v], "prime_pi_sqrt(%d) at %d", n, v); MC_CHECK(t[0][v] == (I)c1[v] && t[1][v] == (I)c3[v], "prime_pi13_sqrt(%d) at %d: %lld %lld, wanted %d %d", n, v, (long long)t[0][v], (long long)t[1][v], c1[v], c3[v]); } (void)c; }
MC_SCENARIO(prime_counts_i64, 8) { prime_counts<i64>(); }
MC_SCENARIO(prime_counts_int, 8) { prime_counts<int>(); }
MC_SCENARIO(prime_counts_large, 4) { static const int base[] = {4096, 10000, 29791, 65536, 97336, 100489, 117649, 250000}; int n = base[mc::choose(8)] + mc::choose(7) - 3; mc::state(mc::hash(n)); auto s = am::prime_pi_sqrt<i64>(n); for (int k = 1; k <= n; k++) MC_CHECK(s[n / k] == pi_[n / k], "prime_pi_sqrt(%d) at %d", n, n / k); mc::op(); }
template<class I, class J> static void pi_deprecated(I lo, I hi, int step, bool fresh) { static std::vector<J> tp; if (tp.empty()) tp.assign(pi_.begin(), pi_.end()); int L = mc::tier(2, 3); mc::H h; if (fresh) { am::prime_pi_PHI_tbl<I, J>().clear(); am::prime_pi_tbl<I>().clear(); }
    for (int i = 0; i < L; i++) { I m = lo + (I)mc::choose((int)((hi - lo) / step) + 1) * (I)step; int size = mc::choose(3); size = size == 0 ? 0 : size == 1 ? 5 : 4000; h(m)(size); mc::state(h.h); mc::op(); I r = am::prime_pi_deprecated<I, J>(m, tp.data(), PR.data(), size); MC_CHECK(r == (I)pi_[m], "prime_pi_deprecated(%lld) = %lld, wanted %d", (long long)m, (long long)r, pi_[m]); if (L > 1 && hi > 100) return; } }
MC_SCENARIO(meissel_small, 4) { pi_deprecated<i64, int>(0, mc::tier(40, 60), 1, true); }
MC_SCENARIO(meissel_i64, 4) { pi_deprecated<i64, int>(0, 250000, mc::tier(487, 61), false); }
MC_SCENARIO(meissel_int, 4) { pi_deprecated<int, int>(0, 250000, mc::tier(487, 61), false); }
MC_SCENARIO(meissel_range, 4) { pi_deprecated<i64, int>(0, mc::tier(3000, 20000), 1, false); }

// ---------------------------------------------------------------- divisor_sums.h: Dirichlet algebra
static int NN() { return mc::tier(24, 40); }
// the convolution is bilinear: every pair of indicator functions
MC_SCENARIO(convolution, 4) { int n = mc::choose(NN()) + 1; mc::state(mc::hash(n)); for (int a = 1; a < std::max(n, 2); a++) for (int b = 1; b < std::max(n, 2); b++) { mc::op(); std::vector<int> h(n, 77); am::dirichlet_convolution(h, [&](int k) { return k == a ? 3 : 0; }, [&](int k) { return k == b ? 5 : 0; }, n); for (int i = 0; i < n; i++) MC_CHECK(h[i] == (i && i == a * b ? 15 : 0), "indicator of %d convolved with that of %d up to %d: value at %d is %d", a, b, n, i, h[i]); MODX = 101; std::vector<X> x(n); am::dirichlet_convolution(x, [&](int k) { return Kit<X>::of(k == a ? 3 : k == 1 ? 1 : 0); }, [&](int k) { return Kit<X>::of(k == b); }, n); for (int i = 1; i < n; i++) MC_CHECK(Kit<X>::is(x[i], (i == a * b ? 3 : 0) + (a != 1 && i == b ? 1 : 0)), "modular convolution, a=%d b=%d, value at %d", a, b, i); } }
// f = h * g is built by definition for every small h and a family of g; division has to give h back
static const i64 PM = 101;
static std::vector<i64> conv(const std::vector<i64>& a, const std::vector<i64>& b) { int n = (int)a.size(); std::vector<i64> r(n, 0); for (int d = 1; d < n; d++) for (int e = 1; d * e < n; e++) r[d * e] = (r[d * e] + a[d] * b[e]) % PM; return r; }
static std::vector<X> junk(int n) { return std::vector<X>(n, X(5, 7)); }
static void same(const std::vector<X>& g, const std::vector<i64>& w, const char* what, int lo = 1) { MC_CHECK(g.size() == w.size(), "%s changed the size of the table", what); for (int i = lo; i < (int)w.size(); i++) MC_CHECK(Kit<X>::is(g[i], w[i]), "%s up to %zu: value at %d is %d mod %d, wanted %lld", what, w.size(), i, (int)g[i].v, (int)g[i].M(), (long long)mod(w[i], PM)); }
static std::function<X(int)> fn(const std::vector<i64>& v) { return [v](int k) { MC_CHECK(k >= 1, "asked for the value of the function at %d", k); return Kit<X>::of(k < (int)v.size() ? v[k] : 0); }; }
static i64 gval(int g, int k) { switch (g) { case 0: return 1; case 1: return k == 1 ? 1 : (k * 37 + 11) % PM; case 2: return k == 1 ? 2 : (k * k * 5 + 3) % PM; case 3: return k == 1 ? 100 : k == 2 ? 1 : 0; default: return (k * 3 + 4) % PM; } }
MC_SCENARIO(division, 4) { MODX = (int)PM; int n = mc::choose(mc::tier(10, 12)) + 1, g = mc::choose(5); std::vector<i64> h(n, 0), gv(n, 0); mc::H hh; hh(n)(g); for (int i = 1; i < n; i++) { int c = i == 1 ? 3 : i < 7 ? 3 : 2; h[i] = mc::choose(c); hh(h[i]); gv[i] = gval(g, i); } mc::state(hh.h); mc::op(); auto f = conv(h, gv); auto r = junk(n); if (n == 1) { gv.push_back(gval(g, 1)); f.push_back(1); } am::dirichlet_division(r, fn(f), fn(gv), n); same(r, h, "dirichlet_division"); if (n > 1 && h[1]) { auto inv = junk(n); am::dirichlet_inverse(inv, fn(h), n); std::vector<i64> iv(n, 0); for (int i = 1; i < n; i++) iv[i] = inv[i].v; auto e = conv(h, iv); for (int i = 1; i < n; i++) MC_CHECK(e[i] == (i == 1), "f times its Dirichlet inverse up to %d is %lld at %d", n, (long long)e[i], i); }
    if (n > 1 && g == 0) { auto m = junk(n); am::moebius_transform(m, fn(f), n); same(m, h, "moebius_transform"); } }
static std::vector<i64> mult(int n, const std::vector<i64>& pp) { std::vector<i64> r(n, 0); for (int i = 1; i < n; i++) { i64 v = 1; int x = i; while (x > 1) { int p = lpf[x], q = 1; while (x % p == 0) x /= p, q *= p; v = v * pp[q] % PM; } r[i] = v; } return r; }
static i64 inv_mod(i64 a) { return mpw(a, (int)PM - 2, PM); }
static bool prime_power(int i) { if (i < 2) return false; int p = lpf[i]; while (i % p == 0) i /= p; return i == 1; }
// h multiplicative with every assignment of small values to the small prime powers; f = h*g for arbitrary g
MC_SCENARIO(multiplicative, 8) { MODX = (int)PM; int n = mc::choose(4); n = n == 0 ? 1 : n == 1 ? 2 : n == 2 ? mc::tier(13, 17) : 30; int g = mc::choose(5); std::vector<i64> pp(std::max(n, 2), 0); mc::H hh; hh(n)(g); for (int i = 2; i < n; i++) if (prime_power(i)) { pp[i] = i < 8 ? mc::choose(3) : i < 12 ? mc::choose(2) * 2 : (i * 7 + 1) % PM; hh(pp[i]); } mc::state(hh.h); mc::op(); auto h = mult(n, pp); std::vector<i64> gv(n, 0); for (int i = 1; i < n; i++) gv[i] = gval(g, i); int ex = mc::choose(2); auto pa = primes_to(ex ? n + 20 : n - 1); int m = (int)pa.size(); pa.push_back(1 << 30); if (n == 1) { std::vector<i64> gg(2, gval(g, 1)); auto r = junk(1); am::dirichlet_division_multiplicative(r, fn(gg), fn(gg), 1, pa.data(), m); am::dirichlet_convolution_multiplicative(r, fn(gg), fn(gg), 1, pa.data(), m); am::dirichlet_inverse_multiplicative(r, fn(gg), 1, pa.data(), m); am::calc_multiplicative(r, 1, pa.data(), m); return; }
    auto f = conv(h, gv); auto r = junk(n); am::dirichlet_division_multiplicative(r, fn(f), fn(gv), n, pa.data(), m); same(r, h, "dirichlet_division_multiplicative");
    { std::vector<i64> iv(n, 0); i64 i1 = inv_mod(gv[1]); for (int i = 1; i < n; i++) { i64 s = i == 1; for (int d = 1; d < i; d++) if (i % d == 0) s = mod(s - iv[d] * gv[i / d], PM); iv[i] = s * i1 % PM; } auto c = junk(n); am::dirichlet_convolution_multiplicative(c, fn(f), fn(iv), n, pa.data(), m); same(c, h, "dirichlet_convolution_multiplicative"); am::dirichlet_convolution_multiplicative(c, fn(iv), fn(f), n, pa.data(), m); same(c, h, "dirichlet_convolution_multiplicative swapped"); }
    { auto v = junk(n); am::dirichlet_inverse_multiplicative(v, fn(h), n, pa.data(), m); std::vector<i64> iv(n, 0); for (int i = 1; i < n; i++) iv[i] = v[i].v; auto e = conv(h, iv); for (int i = 1; i < n; i++) MC_CHECK(e[i] == (i == 1), "h times its multiplicative inverse up to %d is %lld at %d", n, (long long)e[i], i); }
    { std::vector<X> c; for (int i = 0; i < n; i++) c.push_back(Kit<X>::of(prime_power(i) ? pp[i] : 1)); am::calc_multiplicative(c, n, pa.data(), m); same(c, h, "calc_multiplicative"); }
    if (g == 0) { auto t = junk(n); am::moebius_transform_multiplicative(t, fn(f), n, pa.data(), m); same(t, h, "moebius_transform_multiplicative"); } }
MC_SCENARIO(completely_multiplicative, 8) { MODX = (int)PM; int n = mc::choose(4); n = n == 0 ? 1 : n == 1 ? 2 : n == 2 ? mc::tier(13, 19) : 30; int g = mc::choose(5), which = mc::choose(2); std::vector<i64> h(n, 0); mc::H hh; hh(n)(g)(which); if (n > 1) h[1] = 1; for (int i = 2; i < n; i++) if (lpf[i] == i) { h[i] = i < 12 ? mc::choose(4) : i < 17 ? mc::choose(2) * 2 : (i * 7 + 1) % PM; hh(h[i]); } else h[i] = h[i / lpf[i]] * h[lpf[i]] % PM; mc::state(hh.h); mc::op(); std::vector<int> pf(n, 0); for (int i = 2; i < n; i++) { pf[i] = lpf[i]; if (which) { int x = i; while (lpf[x] != x) x /= lpf[x]; pf[i] = x; } } std::vector<i64> gv(std::max(n, 2), 0); for (int i = 1; i < std::max(n, 2); i++) gv[i] = gval(g, i); if (n == 1) { auto r = junk(1); am::dirichlet_division_completely_multiplicative(r, fn(gv), fn(gv), 1, pf.data()); am::dirichlet_convolution_completely_multiplicative(r, fn(gv), fn(gv), 1, pf.data()); am::calc_completely_multiplicative(r, 1, pf.data()); return; }
    auto f = conv(h, gv); auto r = junk(n); am::dirichlet_division_completely_multiplicative(r, fn(f), fn(gv), n, pf.data()); same(r, h, "dirichlet_division_completely_multiplicative");
    std::vector<i64> iv(n, 0), hi(n, 0); i64 i1 = inv_mod(gv[1]); for (int i = 1; i < n; i++) { i64 s = i == 1, t = i == 1; for (int d = 1; d < i; d++) if (i % d == 0) s = mod(s - iv[d] * gv[i / d], PM), t = mod(t - hi[d] * h[i / d], PM); iv[i] = s * i1 % PM; hi[i] = t; }
    auto c = junk(n); am::dirichlet_convolution_completely_multiplicative(c, fn(f), fn(iv), n, pf.data()); same(c, h, "dirichlet_convolution_completely_multiplicative"); auto v = junk(n); am::dirichlet_inverse_completely_multiplicative(v, fn(hi), n, pf.data()); same(v, h, "dirichlet_inverse_completely_multiplicative"); if (g == 0) { auto t = junk(n); am::moebius_transform_completely_multiplicative(t, fn(f), n, pf.data()); same(t, h, "moebius_transform_completely_multiplicative"); } std::vector<X> k; for (int i = 0; i < n; i++) k.push_back(Kit<X>::of(i >= 2 && lpf[i] == i ? h[i] : 1)); am::calc_completely_multiplicative(k, n, pf.data()); same(k, h, "calc_completely_multiplicative"); }
// long tables: every routine on tables that reach past high powers of every small prime
MC_SCENARIO(long_tables, 8) { static const int B[] = {257, 513, 730, 1025, 2049, 2188, 3126, 4097, 6562, 8193, 15626, 16385, 32769, 65537}; MODX = (int)PM; int n = B[mc::choose(mc::tier(10, 14))] + mc::choose(2) - (mc::choose(2)), k = mc::choose(3); mc::state(mc::hash(n, k)); mc::op();
    std::vector<int> lp(n, 0), pa; for (int i = 2; i < n; i++) { if (!lp[i]) lp[i] = i, pa.push_back(i); for (int p : pa) { if (p > lp[i] || (i64)p * i >= n) break; lp[p * i] = p; } } int m = (int)pa.size(); pa.push_back(1 << 30);
    auto mk = [&](int a, int b, bool comp) { std::vector<i64> r(n, 0); r[1] = 1; for (int i = 2; i < n; i++) { int q = 1, x = i, p = lp[i]; while (x % p == 0) x /= p, q *= p; r[i] = comp ? r[i / p] * (i == p ? (p * a + b) % PM : r[p]) % PM : x > 1 ? r[x] * r[q] % PM : (i64)((i64)q * a + b + p) % PM; } return r; };
    auto cv = [&](const std::vector<i64>& a, const std::vector<i64>& b) { std::vector<i64> r(n, 0); for (int d = 1; d < n; d++) if (a[d]) for (int e = 1; d * (i64)e < n; e++) r[d * e] = (r[d * e] + a[d] * b[e]) % PM; return r; };
    auto h1 = mk(7 + k, 3, false), h2 = mk(5, 11 + k, false), c1 = mk(3, 2 + k, true), c2 = mk(9 + k, 1, true); std::vector<i64> e(n, 0); e[1] = 1; auto f = cv(h1, h2); auto vals = [&](const std::vector<X>& x) { std::vector<i64> r(n, 0); for (int i = 1; i < n; i++) r[i] = x[i].v; return r; };
    auto r = junk(n); am::dirichlet_convolution(r, fn(h1), fn(h2), n); same(r, f, "dirichlet_convolution", 1); r = junk(n); am::dirichlet_convolution_multiplicative(r, fn(h1), fn(h2), n, pa.data(), m); same(r, f, "dirichlet_convolution_multiplicative"); r = junk(n); am::dirichlet_division(r, fn(f), fn(h2), n); same(r, h1, "dirichlet_division"); r = junk(n); am::dirichlet_division_multiplicative(r, fn(f), fn(h2), n, pa.data(), m); same(r, h1, "dirichlet_division_multiplicative");
    r = junk(n); am::dirichlet_inverse(r, fn(h1), n); MC_CHECK(cv(vals(r), h1) == e, "dirichlet_inverse up to %d", n); auto inv = vals(r); r = junk(n); am::dirichlet_inverse_multiplicative(r, fn(h1), n, pa.data(), m); same(r, inv, "dirichlet_inverse_multiplicative"); std::vector<i64> one(n, 1); one[0] = 0; auto s1 = cv(h1, one); r = junk(n); am::moebius_transform(r, fn(s1), n); same(r, h1, "moebius_transform"); r = junk(n); am::moebius_transform_multiplicative(r, fn(s1), n, pa.data(), m); same(r, h1, "moebius_transform_multiplicative");
    std::vector<X> t; for (int i = 0; i < n; i++) { int x = i; if (i > 1) while (x % lp[i] == 0) x /= lp[i]; t.push_back(Kit<X>::of(i > 1 && x == 1 ? h1[i] : 1)); } am::calc_multiplicative(t, n, pa.data(), m); same(t, h1, "calc_multiplicative"); t.clear(); for (int i = 0; i < n; i++) t.push_back(Kit<X>::of(i > 1 && lp[i] == i ? c1[i] : 1)); am::calc_completely_multiplicative(t, n, lp.data()); same(t, c1, "calc_completely_multiplicative");
    { auto g = cv(c1, e); r = junk(n); std::vector<i64> ci(n, 0); for (int i = 1; i < n; i++) { int x = i, mu = 1; while (x > 1) { int p = lp[x]; x /= p; mu = x % p == 0 ? 0 : -mu; } ci[i] = mod(mu * c2[i], PM); } auto q = cv(g, ci); (void)q; am::dirichlet_inverse(r, fn(c2), n); same(r, ci, "dirichlet_inverse of a completely multiplicative function"); }
    std::vector<i64> w(n, 0), sg(n, 99); for (int d = 1; d < n; d++) for (int i = d; i < n; i += d) w[i] += ipw(d, k); am::divisor_sigma<i64>(sg, k, n, pa.data(), m); for (int i = 1; i < n; i++) MC_CHECK(sg[i] == w[i], "sigma_%d(%d) sieved up to %d is %lld, wanted %lld", k, i, n, (long long)sg[i], (long long)w[i]); }
MC_SCENARIO(divisor_sigma, 2) { int n = mc::choose(mc::tier(60, 300)) + 1, k = mc::choose(7); mc::state(mc::hash(n, k)); mc::op(); auto pa = primes_to(n - 1); std::vector<i64> w(n, 0); for (int d = 1; d < n; d++) for (int i = d; i < n; i += d) w[i] += ipw(d, std::min(k, 5)); if (k <= 5) { std::vector<i64> t(n, 99); am::divisor_sigma<i64>(t, k, n, pa.data(), (int)pa.size()); for (int i = 1; i < n; i++) MC_CHECK(t[i] == w[i], "sigma_%d(%d) sieved up to %d is %lld, wanted %lld", k, i, n, (long long)t[i], (long long)w[i]); } MODX = 107; int kk = k == 6 ? 10 : k; auto x = junk(n); am::divisor_sigma<X>(x, kk, n, pa.data(), (int)pa.size(), Kit<X>::of(1)); for (int i = 1; i < n; i++) { i64 s = 0; for (int d = 1; d <= i; d++) if (i % d == 0) s += mpw(d, kk, 107); MC_CHECK(Kit<X>::is(x[i], s), "sigma_%d(%d) modulo 107", kk, i); } }

// ---------------------------------------------------------------- summatory functions
// M' arbitrary, p arbitrary with p(1) invertible: t is built by definition
struct Rec { std::vector<i64> dm, p, M, t, s; };
static Rec rec(int n, int km, int kp) { Rec r; r.dm.assign(n + 1, 0); r.p = r.dm; r.M = r.dm; r.t = r.dm; r.s = r.dm; for (int i = 1; i <= n; i++) { r.dm[i] = km < 5 ? gval(km, i) : mod(mu_[i], PM); r.p[i] = kp < 5 ? gval(kp, i) : kp == 5 ? i % PM : (i % 2); r.M[i] = (r.M[i - 1] + r.dm[i]) % PM; r.s[i] = (r.s[i - 1] + r.p[i]) % PM; } for (int i = 1; i <= n; i++) for (int k = 1; k <= i; k++) r.t[i] = (r.t[i] + r.p[k] * r.M[i / k]) % PM; return r; }
template<class TBL> static void run_sum_m(const Rec& r, int n, int u, TBL& tbl, bool plain, const char* what) { auto fv = [&](const std::vector<i64>& v) { return [&v, n](i64 k) { MC_CHECK(k >= 0 && k <= n, "asked for the value at %lld, bound %d", (long long)k, n); return Kit<X>::of(v[k]); }; }; for (int i = 1; i <= u; i++) tbl[i] = Kit<X>::of(r.M[i]); X g = plain ? am::sum_m<X>(fv(r.t), n, tbl, Kit<X>::of(1)) : am::sum_m<X>(fv(r.t), fv(r.s), n, tbl, Kit<X>::of(1)); MC_CHECK(Kit<X>::is(g, r.M[n]), "sum_m(%d) with %s prefilled up to %d is %d, wanted %lld", n, what, u, (int)g.v, (long long)r.M[n]); for (int k = 1; k <= n; k++) if (tbl.count(n / k)) MC_CHECK(Kit<X>::is(tbl[n / k], r.M[n / k]), "sum_m(%d) with %s prefilled up to %d left %d at %d", n, what, u, (int)tbl[n / k].v, n / k); }
MC_SCENARIO(recursive_sums, 8) { MODX = (int)PM; int n = mc::choose(mc::tier(41, 160)), km = mc::choose(6), kp = mc::choose(7); if (n > 100 && (km + kp + n) % 3) mc::cut(); mc::state(mc::hash(n, km, kp)); auto r = rec(n, km, kp); for (int u = 0; u <= n; u++) { mc::op(); { std::map<int, X> m; run_sum_m(r, n, u, m, false, "a map"); } if (kp == 0) { std::unordered_map<int, X> m; run_sum_m(r, n, u, m, true, "a map"); } if (n && u >= is2(n)) { ac::sqrt_map<int, X> m(u, n); run_sum_m(r, n, u, m, false, "a sqrt map"); if (kp == 0) { ac::sqrt_map<int, X> q(u, n); run_sum_m(r, n, u, q, true, "a sqrt map"); } } } }
MC_SCENARIO(sieved_sums, 4) { MODX = (int)PM; int n = mc::choose(mc::tier(50, 120)) + 1, km = mc::choose(6), kp = mc::choose(7), j = mc::choose(2); mc::state(mc::hash(n, km, kp, j)); mc::op(); auto r = rec(n, km, kp); auto t = [&](int k) { MC_CHECK(k >= 1 && k <= n, "asked for t(%d)", k); return Kit<X>::of(r.t[k]); }; auto p = [&](int k) { return Kit<X>::of(r.p[k]); }; std::vector<i64> w(r.M.begin(), r.M.begin() + n); auto tbl = [&]() { return j ? std::vector<X>(n, X(5, 101)) : std::vector<X>(n); }; if (n > 1) { auto a = tbl(); am::sieve_m(a, t, p, n); same(a, w, "sieve_m with p"); if (kp == 0) { auto b = tbl(); am::sieve_m(b, t, n); same(b, w, "sieve_m"); } }
    if (n > 1 && (kp == 0 || kp >= 5) && (km == 0 || km == 5)) { auto pa = primes_to(n - 1); auto c = tbl(); am::sieve_m_multiplicative(c, t, p, n, pa.data(), (int)pa.size()); same(c, w, "sieve_m_multiplicative"); std::vector<i64> iv(n + 1, 0); for (int i = 1; i <= n; i++) { i64 s = i == 1; for (int d = 1; d < i; d++) if (i % d == 0) s = mod(s - iv[d] * r.p[i / d], PM); iv[i] = s; } auto d = tbl(); am::sieve_m_multiplicative_inv(d, t, [&](int k) { return Kit<X>::of(iv[k]); }, n, pa.data(), (int)pa.size()); same(d, w, "sieve_m_multiplicative_inv"); } }
template<class T> static void mertens_sieves() { int n = mc::choose(mc::tier(130, 600)) + 2, dirty = mc::choose(2); mc::state(mc::hash(n, dirty)); auto pa = primes_to(n - 1); int m = (int)pa.size(); std::vector<i64> w(n, 0), w1(n, 0), w0(n, 0); for (int i = 1; i < n; i++) { w[i] = w[i - 1] + mu_[i]; w1[i] = w1[i - 1] + (i % 2 ? mu_[i] : 0); w0[i] = w0[i - 1] + (i % 2 ? 0 : mu_[i]); }
    auto cmp = [&](const std::vector<T>& g, const std::vector<i64>& v, const char* what) { mc::op(); for (int i = 1; i < n; i++) MC_CHECK(Kit<T>::is(g[i], v[i]), "%s up to %d at %d, wanted %lld", what, n, i, (long long)v[i]); }; auto tbl = [&]() { return dirty ? std::vector<T>(n, Kit<T>::of(3)) : std::vector<T>(n); }; T id = Kit<T>::of(1);
    auto a = tbl(); am::sieve_mertens<T>(a, n, pa.data(), m, id); cmp(a, w, "sieve_mertens"); a = tbl(); am::sieve_mertens_odd<T>(a, n, pa.data(), m, id); cmp(a, w1, "sieve_mertens_odd"); a = tbl(); am::sieve_mertens_even<T>(a, n, id); cmp(a, w0, "sieve_mertens_even"); a = tbl(); auto b = tbl(); am::sieve_mertens_even_odd<T>(a, b, n, pa.data(), m, id); cmp(a, w0, "sieve_mertens_even_odd, even"); cmp(b, w1, "sieve_mertens_even_odd, odd"); }
MC_SCENARIO(mertens_sieves_int, 2) { mertens_sieves<int>(); }
MC_SCENARIO(mertens_sieves_modx, 2) { MODX = 1009; mertens_sieves<X>(); }
struct Mert { std::vector<i64> w, w1, w0; Mert(int n) : w(n + 1, 0), w1(n + 1, 0), w0(n + 1, 0) { for (int i = 1; i <= n; i++) { w[i] = w[i - 1] + mu_[i]; w1[i] = w1[i - 1] + (i % 2 ? mu_[i] : 0); w0[i] = w0[i - 1] + (i % 2 ? 0 : mu_[i]); } } };
template<class T, class I> static void mertens_recursive() { int n = mc::choose(mc::tier(161, 500)); mc::state(mc::hash(n)); Mert c(n); T id = Kit<T>::of(1); for (int u = 0; u <= n; u += n > 60 ? 1 + u / 4 : 1) { mc::op(); for (int k = 0; k < 3; k++) { auto& w = k == 0 ? c.w : k == 1 ? c.w1 : c.w0; std::unordered_map<I, T> t; for (int i = 1; i <= u; i++) t[i] = Kit<T>::of(w[i]); T g = k == 0 ? am::mertens<T>((I)n, t, id) : k == 1 ? am::mertens_odd<T>((I)n, t, id) : am::mertens_even<T>((I)n, t, id); const char* nm = k == 0 ? "mertens" : k == 1 ? "mertens_odd" : "mertens_even"; MC_CHECK(Kit<T>::is(g, w[n]), "%s(%d) with a table up to %d, wanted %lld", nm, n, u, (long long)w[n]); if (n && u >= is2(n)) { ac::sqrt_map<I, T> q(u, n); for (int i = 1; i <= u; i++) q[i] = Kit<T>::of(w[i]); T h = k == 0 ? am::mertens<T>((I)n, q, id) : k == 1 ? am::mertens_odd<T>((I)n, q, id) : am::mertens_even<T>((I)n, q, id); MC_CHECK(Kit<T>::is(h, w[n]), "%s(%d) with a sqrt map up to %d, wanted %lld", nm, n, u, (long long)w[n]); for (int i = 1; i <= n; i++) MC_CHECK(!q.count(n / i) || Kit<T>::is(q[n / i], w[n / i]), "%s(%d) with a sqrt map up to %d left a wrong value at %d", nm, n, u, n / i); } } } }
MC_SCENARIO(mertens_recursive_int, 4) { mertens_recursive<int, int>(); }
MC_SCENARIO(mertens_recursive_i64, 4) { mertens_recursive<i64, i64>(); }
MC_SCENARIO(mertens_recursive_modx, 4) { MODX = 1009; mertens_recursive<X, i64>(); }
MC_SCENARIO(mertens_wide, 6) { // arguments beyond 31 bits: mertens = even + odd, and even(n) = -odd(n/2)
    static const i64 ns[] = {(1LL << 31) - 1, 1LL << 31, (1LL << 31) + 1, 3000000000LL, 1LL << 32, (1LL << 32) + 2}; i64 n = ns[mc::choose(6)]; mc::state(mc::hash(n)); const int U = 1 << 18; static Mert c(U - 1); ac::sqrt_map<i64, i64> a(U - 1, n), b(U - 1, n), e(U - 1, n); for (int i = 1; i < U; i++) { a[i] = c.w[i]; b[i] = c.w1[i]; e[i] = c.w0[i]; } i64 m = am::mertens<i64>(n, a), o = am::mertens_odd<i64>(n, b), v = am::mertens_even<i64>(n, e); mc::op(); MC_CHECK(m == o + v, "mertens(%lld) = %lld but odd part %lld and even part %lld", (long long)n, (long long)m, (long long)o, (long long)v); MC_CHECK(v == -b[n / 2], "mertens_even(%lld) = %lld but mertens_odd(%lld) = %lld", (long long)n, (long long)v, (long long)(n / 2), (long long)b[n / 2]); }
MC_SCENARIO(mertens_from_prime_counts, 8) { int n = mc::choose(mc::tier(260, 1200)) + 1, x = mc::choose(4); mc::state(mc::hash(n, x)); mc::op(); i64 lim = x == 0 ? is2(n) : x == 1 ? std::max<i64>(is2(n), (i64)std::sqrt(n * std::log((double)n))) : x == 2 ? n : n + 300; auto pa = primes_to(lim); ac::sqrt_map<i64, i64> pt(is2(n), n); for (int k = 1; k <= n; k++) pt[n / k] = pi_[n / k]; for (int i = 1; i <= is2(n); i++) pt[i] = pi_[i]; Mert c(n); const int* p = pa.data(); int m = (int)pa.size(); MODX = 1009;
    for (int ring = 0; ring < 2; ring++) { auto cmp = [&](bool ok, int v, const char* nm) { MC_CHECK(ok, "%s(%d) from prime counts and the primes up to %lld: wrong at %d", nm, n, (long long)lim, v); }; if (ring == 0) { auto a = am::mertens<i64>(n, pt, p, m); auto b = am::mertens_odd<i64>(n, pt, p, m); auto e = am::mertens_even<i64>(n, pt, p, m); for (int k = 1; k <= n; k++) { int v = n / k; cmp(a[v] == c.w[v], v, "mertens"); cmp(b[v] == c.w1[v], v, "mertens_odd"); cmp(e[v] == c.w0[v], v, "mertens_even"); } } else { X id = Kit<X>::of(1); auto a = am::mertens<X>(n, pt, p, m, id); auto b = am::mertens_odd<X>(n, pt, p, m, id); auto e = am::mertens_even<X>(n, pt, p, m, id); for (int k = 1; k <= n; k++) { int v = n / k; cmp(Kit<X>::is(a[v], c.w[v]), v, "mertens modulo"); cmp(Kit<X>::is(b[v], c.w1[v]), v, "mertens_odd modulo"); cmp(Kit<X>::is(e[v], c.w0[v]), v, "mertens_even modulo"); } } } }
// multiplicative functions given at prime powers: every function of a family that depends on p and e in different ways
static i64 fpe(int f, int p, int e) { i64 q = ipw(p, e); switch (f) { case 0: return 1; case 1: return q % PM; case 2: return e > 1 ? 0 : PM - 1; case 3: return e + 1; case 4: return (q - q / p) % PM; case 5: return (p * 7 + e * 13 + p * e) % PM; case 6: return e == 1 ? 0 : e; case 7: return p == 2 ? 0 : 5; default: return p % 4 == 1 ? e : PM - 2; } }
MC_SCENARIO(multiplicative_sums, 16) { MODX = (int)PM; int n = mc::choose(mc::tier(300, 1500)) + 1, f = mc::choose(9), x = mc::choose(4); if (n > 300 && (n + f) % 3 && x) mc::cut(); mc::state(mc::hash(n, f, x)); mc::op(); i64 lim = x == 0 ? is2(n) : x == 1 ? std::max<i64>(is2(n), (i64)std::sqrt(n * std::log((double)n))) : x == 2 ? n : n + 300; auto pa = primes_to(lim); std::vector<i64> pp(n + 2, 0), s1(n + 1, 0), w(n + 1, 0); for (int i = 2; i <= n; i++) { if (prime_power(i)) { int e = 0, y = i; while (y > 1) y /= lpf[i], e++; pp[i] = fpe(f, lpf[i], e); } s1[i] = (s1[i - 1] + (lpf[i] == i ? pp[i] : 0)) % PM; } auto h = mult(n + 1, pp); for (int i = 1; i <= n; i++) w[i] = (w[i - 1] + h[i]) % PM;
    auto F = [&](X prev, int p, int e) { MC_CHECK(e >= 1 && lpf[p] == p && Kit<X>::is(prev, e == 1 ? 1 : fpe(f, p, e - 1)), "f(%d^%d) asked with a wrong previous value %d", p, e, (int)prev.v); return Kit<X>::of(fpe(f, p, e)); }; auto sum1 = [&](i64 k) { MC_CHECK(k >= 0 && k <= n, "sum over primes asked at %lld", (long long)k); return Kit<X>::of(s1[k]); };
    auto r = am::sum_multiplicative<X>(sum1, F, n, pa.data(), (int)pa.size(), Kit<X>::of(1)); for (int k = 1; k <= n; k++) MC_CHECK(Kit<X>::is(r[n / k], w[n / k]), "sum_multiplicative(%d) of f%d with the primes up to %lld: at %d is %d, wanted %lld", n, f, (long long)lim, n / k, (int)r[n / k].v, (long long)w[n / k]); X g = am::sum_multiplicative_34<X>(sum1, F, n, pa.data(), (int)pa.size(), Kit<X>::of(1)); MC_CHECK(Kit<X>::is(g, w[n]), "sum_multiplicative_34(%d) of f%d with the primes up to %lld is %d, wanted %lld", n, f, (long long)lim, (int)g.v, (long long)w[n]); }
template<class T> static void totients() { int n = mc::choose(mc::tier(700, 3000)); mc::state(mc::hash(n)); std::vector<i64> w(n + 1, 0); for (int i = 1; i <= n; i++) w[i] = w[i - 1] + phi_[i]; i64 c = ic2(n); std::vector<int> ph(phi_.begin(), phi_.begin() + c * c + 1); for (int k = 0; k < 2; k++) { mc::op(); auto m = k ? am::sum_phi<T, i64>(n, Kit<T>::of(1), ph.data()) : am::sum_phi<T, i64>(n, Kit<T>::of(1)); for (int i = 1; i <= n; i++) MC_CHECK(Kit<T>::is(m[n / i], w[n / i]), "sum_phi(%d)%s at %d, wanted %lld", n, k ? " from a table" : "", n / i, (long long)w[n / i]); } auto q = am::sum_phi<T, int>(n, Kit<T>::of(1)); MC_CHECK(Kit<T>::is(q[n], w[n]), "sum_phi(%d)", n); if (!n) MC_CHECK(Kit<T>::is((am::sum_phi<T, i64>(0, Kit<T>::of(1))[0]), 0), "sum_phi(0)"); }
MC_SCENARIO(totient_sums_i64, 8) { totients<i64>(); }
MC_SCENARIO(totient_sums_modx, 8) { MODX = 1009; totients<X>(); }
static i64 euler_D(int D, int n, i64 m) { i64 s = 0; for (int d = 1; d <= n; d++) if (n % d == 0 && mu_[n / d]) { i64 b = 1; for (int i = 0; i < D; i++) b = b * (d + i) / (i + 1); s += mu_[n / d] * b; } return mod(s, m); }
template<class T> static void totients_D(i64 m) { int D = mc::choose(5), L = mc::choose(4), n = mc::choose(mc::tier(60, 250)); mc::state(mc::hash(D, L, n)); static std::map<int, std::vector<i64>> memo; auto& w = memo[D * 10 + L + (int)(m % 97) * 100]; if (w.empty()) { w.assign(mc::tier(60, 250), 0); for (int i = 1; i < (int)w.size(); i++) w[i] = (w[i - 1] + euler_D(D, i, m) * mpw(i, L, m)) % m; } T id = Kit<T>::of(1); std::vector<int> us{0, 1, 2, 3, (int)is2(n), (int)is2(n) + 1, n, n + 1, n + 5}; for (int u : us) { if (u < 0) continue; mc::op(); T g = am::sum_phi_D_L<T>(D, L, (i64)n, u, id); MC_CHECK(Kit<T>::is(g, w[n]), "sum of k^%d phi_%d(k) up to %d sieving up to %d, wanted %lld", L, D, n, u, (long long)w[n]); std::vector<i64> vn{n / 2, (i64)n, 1, n, n / 3, 0}; auto v = am::sum_phi_D_L<T>(D, L, vn, u, id); MC_CHECK(v.size() == vn.size(), "sum_phi_D_L returned %zu values", v.size()); for (size_t i = 0; i < vn.size(); i++) MC_CHECK(Kit<T>::is(v[i], w[vn[i]]), "sum of k^%d phi_%d(k) up to %lld, one of several up to %d, sieving up to %d", L, D, (long long)vn[i], n, u); } }
MC_SCENARIO(totient_power_sums, 8) { totients_D<B>(1000000007); }
MC_SCENARIO(totient_power_sums_modx, 8) { MODX = 1009; totients_D<X>(1009); }
MC_SCENARIO(polynomial_moebius_sums, 4) { MODX = 1009; int L = mc::choose(3), n = mc::choose(mc::tier(50, 200)) + 1; std::vector<X> co; mc::H h; h(L)(n); std::vector<i64> cv; for (int i = 0; i < 3; i++) { cv.push_back(mc::choose(3)); h(cv.back()); co.push_back(Kit<X>::of(cv.back())); } mc::state(h.h); mc::op(); am::polynom<X> g(co.begin(), co.end()); i64 w = 0; for (int k = 1; k <= n; k++) { i64 s = 0; for (int d = 1; d <= k; d++) if (k % d == 0) s += mu_[k / d] * (cv[0] + cv[1] * d + cv[2] * d * d); w = mod(w + mod(s, 1009) * mpw(k, L, 1009), 1009); } std::vector<i64> vn{(i64)n}; auto v = am::sum_g_L<X, i64>(g, L, vn, 0); MC_CHECK(v.size() == 1 && Kit<X>::is(v[0], w), "sum of k^%d (mu * (%lld + %lld n + %lld n^2))(k) up to %d", L, (long long)cv[0], (long long)cv[1], (long long)cv[2], n); }
MC_SCENARIO(square_free, 4) { int n = mc::choose(mc::tier(500, 3000)); mc::state(mc::hash(n)); mc::op(); std::vector<i64> w(n + 1, 0); for (int i = 1; i <= n; i++) w[i] = w[i - 1] + (mu_[i] != 0); MODX = 1009; for (int e = 0; e < 2; e++) { auto pa = primes_to(e ? n + 50 : is2(n)); std::vector<int> t(n + 1, 9); am::sieve_sqfree_count(t, n + 1, pa.data(), (int)pa.size(), int(1)); std::vector<X> x(n + 1); am::sieve_sqfree_count(x, n + 1, pa.data(), (int)pa.size(), Kit<X>::of(1)); for (int i = 1; i <= n; i++) MC_CHECK(t[i] == w[i] && Kit<X>::is(x[i], w[i]), "sieve_sqfree_count up to %d at %d", n, i); MC_CHECK(t[0] == 0 && x[0].v == 0, "sieve_sqfree_count at 0"); }
    for (int u = 0; u <= n; u += 1 + u / 3) { std::unordered_map<i64, i64> m; for (int i = 1; i <= u; i++) m[i] = w[i]; i64 g = am::sqfree_count<i64>((i64)n, m, (i64)1); MC_CHECK(g == w[n], "sqfree_count(%d) with a table up to %d is %lld, wanted %lld", n, u, (long long)g, (long long)w[n]); if (n && u >= is2(n)) { ac::sqrt_map<i64, X> q(u, n); for (int i = 0; i <= u; i++) q[i] = Kit<X>::of(w[i]); for (int k = 1; k <= n; k++) MC_CHECK(Kit<X>::is(am::sqfree_count<X>((i64)(n / k), q, Kit<X>::of(1)), w[n / k]), "sqfree_count(%d) within a map of %d up to %d", n / k, n, u); } } }
MC_SCENARIO(sqrt_map_builder, 2) { int n = mc::choose(mc::tier(400, 3000)) + 1; mc::state(mc::hash(n)); mc::op(); MODX = 97; auto t = am::make_sqrt_map<int, X>([&](int k) { MC_CHECK(k >= 1 && k <= n, "asked for %d", k); return Kit<X>::of(k * 31LL + 4); }, n); for (int k = 1; k <= n; k++) { MC_CHECK(t.count(n / k), "make_sqrt_map(%d) lacks %d", n, n / k); MC_CHECK(Kit<X>::is(t[n / k], (n / k) * 31LL + 4), "make_sqrt_map(%d) at %d", n, n / k); } MC_CHECK(Kit<X>::is(t[0], 0), "make_sqrt_map(%d) at 0", n); auto s = am::make_sqrt_map<i64, i64>([&](i64 k) { return k * k; }, (i64)n); for (int k = 1; k <= n; k++) MC_CHECK(s[n / k] == (i64)(n / k) * (n / k), "make_sqrt_map(%d) at %d", n, n / k); }
MC_SCENARIO(coprime_sums, 4) { static const int ps[] = {2, 3, 5, 7, 11}; int mask = mc::choose(32), n = mc::choose(mc::tier(80, 300)), rev = mc::choose(2); mc::state(mc::hash(mask, n, rev)); std::vector<int> P; for (int i = 0; i < 5; i++) if (mask >> i & 1) P.push_back(ps[i]); if (rev) std::reverse(P.begin(), P.end()); for (int j = 1; j <= std::max(n, 1); j++) { mc::op(); bool cop = j <= n; for (int p : P) if (j % p == 0) cop = false; i64 g = am::coprime_sum<i64>(P.begin(), P.end(), n, [&](int k, int m) { return (i64)(j % m == 0 && j / m <= k); }); MC_CHECK(g == cop, "coprime_sum up to %d over %zu primes counts %d %lld times", n, P.size(), j, (long long)g); } }
// ---- bounds between 10^9 and 4.3*10^9 (around 2^31, 2^32 and squares), against a table made by a segmented factorising sieve
static const std::map<i64, std::vector<i64>>& large_table() { static const std::map<i64, std::vector<i64>> t{
#include "c46_large.inc"
    }; return t; }
static const i64 LARGE[] = {1000000000LL, (1LL << 31) - 1, 1LL << 31, 2147488280LL, 2147488281LL, 3000000019LL, (1LL << 32) - 1, 1LL << 32, 4295098368LL, 4295098369LL};
enum { lPI, lP1, lP3, lPS, lM, lPHI, lQ, lD, lMO };
static const std::vector<int>& big_primes() { static std::vector<int> r; if (r.empty()) { std::vector<char> c(700000, 0); for (int i = 2; i < 700000; i++) if (!c[i]) { r.push_back(i); for (i64 j = (i64)i * i; j < 700000; j += i) c[j] = 1; } } return r; }
template<class M> static void large_at(const M& m, i64 n, int what, const char* nm) { for (i64 k : {1, 2, 3, 10, 100}) { i64 g = (i64)m(n / k), w = large_table().at(n / k)[what]; mc::op(); MC_CHECK(g == w, "%s for the bound %lld: at %lld is %lld, wanted %lld", nm, (long long)n, (long long)(n / k), (long long)g, (long long)w); } }
static i64 val(const B& b) { return b.v; }
MC_SCENARIO(large_prime_counts, 10) { i64 n = LARGE[mc::choose(10)]; int f = mc::choose(3); mc::state(mc::hash(n, f, 1));
    if (f == 0) { auto s = am::prime_pi_sqrt<i64>(n); large_at([&](i64 v) { return s[v]; }, n, lPI, "prime_pi_sqrt"); for (int v = 1; v <= 31000; v += 7) MC_CHECK(s[v] == pi_[v], "prime_pi_sqrt(%lld) at %d", (long long)n, v); if (n < (1LL << 31)) { int g = am::prime_pi<int>((int)n); MC_CHECK(g == large_table().at(n)[lPI], "prime_pi(%lld) in 32 bits is %d", (long long)n, g); } }
    if (f == 1) { auto t = am::prime_pi13_sqrt<i64>(n); large_at([&](i64 v) { return t[0][v]; }, n, lP1, "primes 1 mod 4"); large_at([&](i64 v) { return t[1][v]; }, n, lP3, "primes 3 mod 4"); }
    if (f == 2) { auto s = am::prime_sum_sqrt<B, i64>(n, B(1)); large_at([&](i64 v) { return val(s[v]); }, n, lPS, "prime_sum_sqrt"); } }
MC_SCENARIO(large_sums, 10) { i64 n = LARGE[mc::choose(10)]; int f = mc::choose(4); mc::state(mc::hash(n, f, 2));
    if (f == 0) { std::unordered_map<i64, i64> t; large_at([&](i64 v) { return am::sqfree_count<i64>(v, t, (i64)1); }, n, lQ, "sqfree_count"); }
    if (f == 1) { auto s = am::sum_phi<B, i64>(n, B(1)); large_at([&](i64 v) { return val(s[v]); }, n, lPHI, "sum_phi"); }
    if (f == 2) { large_at([&](i64 v) { return am::sum_sqrt<i64>([](i64 x) { return x; }, v); }, n, lD, "sum_sqrt"); large_at([&](i64 v) { return am::sum_sqrt2<i64>([](i64 k, i64 x) { return k * x; }, v); }, n, lD, "sum_sqrt2"); if (n < (1LL << 31)) large_at([&](i64 v) { return am::sum_sqrt<i64, int>([](int x) { return (i64)x; }, (int)v); }, n, lD, "sum_sqrt in 32 bits"); }
    if (f == 3 && (n <= 2147483648LL || mc::thorough())) large_at([&](i64 v) { return val(am::sum_phi_D_L<B>(1, 0, v, 1 << 21, B(1))); }, n, lPHI, "sum_phi_D_L"); }
MC_SCENARIO(large_from_primes, 10) { i64 n = LARGE[mc::choose(10)]; int f = mc::choose(6), lg = mc::choose(2); mc::state(mc::hash(n, f, lg, 3)); auto& P = big_primes(); i64 lim = lg ? (i64)std::sqrt(n * std::log((double)n)) : (i64)std::sqrt((double)n); if (lim >= 700000) mc::fail("check: more primes needed"); int m = 0; while (P[m] <= lim) m++; std::vector<int> pa(P.begin(), P.begin() + m); auto pi = am::prime_pi_sqrt<i64>(n);
    if (f == 0) { auto s = am::mertens<i64>(n, pi, pa.data(), m); large_at([&](i64 v) { return s[v]; }, n, lM, "mertens"); return; }
    if (f == 1) { auto s = am::mertens_odd<i64>(n, pi, pa.data(), m); large_at([&](i64 v) { return s[v]; }, n, lMO, "mertens_odd"); return; }
    auto ps = am::prime_sum_sqrt<B, i64>(n, B(1)); auto s1 = [&](i64 v) { B c(v < 1 ? 0 : (int)pi[v]); return f == 2 ? -c : f == 3 ? c * 2 : f == 4 ? (v < 1 ? B(0) : ps[v]) - c : c; }; auto F = [&](B prev, int p, int e) { return f == 2 ? B(e == 1 ? -1 : 0) : f == 3 ? B(e + 1) : f == 4 ? (e == 1 ? B(p - 1) : prev * p) : B(e == 1); }; static const int W[] = {lM, lMO, lM, lD, lPHI, lQ};
    auto s = am::sum_multiplicative<B>(s1, F, n, pa.data(), m, B(1)); for (i64 k : {1, 2, 3, 10, 100}) { i64 w = mod(large_table().at(n / k)[W[f]], 1000000007); mc::op(); MC_CHECK(val(s[n / k]) == w, "sum_multiplicative(%lld) of f%d at %lld is %lld, wanted %lld", (long long)n, f, (long long)(n / k), (long long)val(s[n / k]), (long long)w); } if (!lg && n <= 2147483648LL) { i64 g = val(am::sum_multiplicative_34<B>(s1, F, n, pa.data(), m, B(1))), w = mod(large_table().at(n)[W[f]], 1000000007); MC_CHECK(g == w, "sum_multiplicative_34(%lld) of f%d is %lld, wanted %lld", (long long)n, f, (long long)g, (long long)w); } }
MC_SCENARIO(large_coprime, 2) { static const int ps[] = {2, 3, 5, 7, 11}; int mask = mc::choose(32), j = mc::choose(6); i64 n = (j < 3 ? (1LL << 31) - 1 + j : j < 5 ? 1000000000000LL - j : 9000000000000000000LL), q = 1; std::vector<int> P; for (int i = 0; i < 5; i++) if (mask >> i & 1) P.push_back(ps[i]), q *= ps[i]; mc::state(mc::hash(mask, j, 4)); mc::op(); i64 c = 0, r = 0; for (int k = 1; k <= q; k++) { bool o = true; for (int p : P) o = o && k % p; c += o; r += o && k <= n % q; } i64 g = am::coprime_sum<i64>(P.begin(), P.end(), n, [&](i64 k, i64) { return k; }); MC_CHECK(g == n / q * c + r, "coprime_sum up to %lld: %lld numbers coprime to %lld, wanted %lld", (long long)n, (long long)g, (long long)q, (long long)(n / q * c + r)); }
