// C37 factorials and binomials modulo prime powers: every prime power, every argument, against exact products with the prime divided out.
// MC_BOUNDS: every prime power p^e up to 256/3000 (both modulus types) with every n up to 3 p^e + 60 (capped at 2000/10000) for factorials and every pair k <= n up to 60/250 (110/250 for p^e <= 128) plus every n in windows around 1..3 multiples of p^e with every k near 0, n, n/2 and around multiples of p and p^e; high exponents (2^e to 2^30 / 2^60, 3^e, 5^e, 7^e, 37^e, 101^e ...) with every n up to 300/1500; look-up tables of exactly p*e+1 resp. p^e+1 entries under AddressSanitizer; 18 large n up to 10^18 with 25 values of k per prime power; multinomials of every list of up to 4 parts up to 5; elements_multinomial of every sorted sequence up to length 8
// MC_ASSUME: p is prime, 0 <= k <= n, p^e fits the modulus type
#include "mc.h"
#include <stdint.h>
#include <limits.h>
#include <string.h>
#include <vector>
#include <set>
#include <algorithm>
#include <memory>
#include <numeric>
#include "altruct/algorithm/math/comb_mod_pp.h"
#include "altruct/algorithm/math/comb_primes.h"
namespace am = altruct::math; typedef long long ll; typedef __int128 L;
static bool prime(int n) { for (int d = 2; d * d <= n; d++) if (n % d == 0) return false; return n > 1; }
struct Ref { ll p, m; int e; std::vector<ll> red, skip, ex; /* n! without p's; n! without multiples of p; exponent */
    Ref(ll p, int e, int N) : p(p), m(1), e(e), red(N + 1), skip(N + 1), ex(N + 1) { for (int i = 0; i < e; i++) m *= p; red[0] = skip[0] = 1 % m; for (int i = 1; i <= N; i++) { ll x = i; ex[i] = ex[i - 1]; while (x % p == 0) x /= p, ex[i]++; red[i] = (L)red[i - 1] * (x % m) % m; skip[i] = i % p ? (L)skip[i - 1] * (i % m) % m : skip[i - 1]; } }
    static ll inv(ll a, ll m) { ll r0 = m, r1 = a % m, s0 = 0, s1 = 1; while (r1) { ll q = r0 / r1; std::swap(r0, r1); r1 -= q * r0; std::swap(s0, s1); s1 -= q * s0; } return (s0 % m + m) % m; }
    ll bin(int n, int k) const { return m == 1 ? 0 : (L)red[n] * inv((L)red[k] * red[n - k] % m, m) % m; }
    ll big(ll n) const { /* needs skip[0..m] */ ll f = 1 % m; for (; n > 0; n /= p) { ll q = n / m; L w = skip[(size_t)m]; ll t = 1; while (q) { if (q & 1) t = t * w % m; w = w * w % m; q >>= 1; } f = (L)f * t % m * skip[(size_t)(n % m)] % m; } return f; } };
template<class R> static std::unique_ptr<R[]> table(const Ref& r, int n) { auto v = am::factorials_mod_pp_skipped<R>(n, (int)r.p, r.e); std::unique_ptr<R[]> t(new R[n + 1]); MC_CHECK((int)v.size() == n + 1, "table of %d factorials has %d entries", n, (int)v.size()); for (int i = 0; i <= n; i++) { t[i] = v[i]; if (i < (int)r.skip.size()) MC_CHECK(v[i] == r.skip[i], "factorials_mod_pp_skipped %d mod %lld^%d is %lld, expected %lld", i, r.p, r.e, (ll)v[i], r.skip[i]); } return t; }
template<class R, class I> static void fact1(const Ref& r, I n, const R* small, const R* full, ll red, ll skip, ll ex, bool slow) {
    int p = (int)r.p, e = r.e; mc::op();
    #define PAIR(x, y, what) { auto g = (x); std::pair<R, I> w y; MC_CHECK(g.first == w.first && g.second == w.second, what "(%lld) mod %d^%d is {%lld, %lld}, expected {%lld, %lld}", (ll)n, p, e, (ll)g.first, (ll)g.second, (ll)w.first, (ll)w.second); }
    if (skip >= 0) PAIR((am::factorial_mod_pp_skipped<R, I>(n, p, e, small)), ((R)skip, n / p), "factorial_mod_pp_skipped")
    PAIR((am::factorial_mod_pp_reduced<R, I>(n, p, e, small)), ((R)red, (I)ex), "factorial_mod_pp_reduced")
    if (full) PAIR((am::factorial_mod_pp_reduced_2<R, I>(n, p, e, full)), ((R)red, (I)ex), "factorial_mod_pp_reduced_2")
    if (slow) { PAIR((am::factorial_mod_pp_skipped_slow<R, I>(n, p, e)), ((R)skip, n / p), "factorial_mod_pp_skipped_slow") PAIR((am::factorial_mod_pp_reduced_slow<R, I>(n, p, e)), ((R)red, (I)ex), "factorial_mod_pp_reduced_slow") }
    MC_CHECK(am::factorial_prime_exponent<I>(n, p) == (I)ex, "factorial_prime_exponent(%lld, %d)", (ll)n, p);
}
template<class R, class I> static void bin1(const Ref& r, I n, I k, const R* small, const R* full, ll b, ll ex, bool slow) {
    int p = (int)r.p, e = r.e; mc::op();
    #define BIN(x, what) { auto g = (x); MC_CHECK(g.first == (R)b && g.second == (I)ex, what "(%lld, %lld) mod %d^%d is {%lld, %lld}, expected {%lld, %lld}", (ll)n, (ll)k, p, e, (ll)g.first, (ll)g.second, b, ex); }
    BIN((am::binomial_mod_pp_reduced<R, I>(n, k, p, e, small)), "binomial_mod_pp_reduced") if (full) BIN((am::binomial_mod_pp_reduced_2<R, I>(n, k, p, e, full)), "binomial_mod_pp_reduced_2") if (slow) BIN((am::binomial_mod_pp_reduced_slow<R, I>(n, k, p, e)), "binomial_mod_pp_reduced_slow") MC_CHECK(am::binomial_prime_exponent<I>(n, k, p) == (I)ex, "binomial_prime_exponent(%lld, %lld, %d)", (ll)n, (ll)k, p);
}
template<class R, class I> static void pp(ll p, int e) {
    ll m = 1; for (int i = 0; i < e; i++) m *= p; int cap = mc::tier(2000, 10000), N = (int)std::min<ll>(3 * m + 60, cap); Ref r(p, e, std::max<int>(N, m <= 3000 ? (int)m : 0)); mc::trace("modulo %lld^%d", p, e);
    auto small = table<R>(r, (int)p * e); std::unique_ptr<R[]> full; if (m <= 3000) full = table<R>(r, (int)m); auto F = full.get();
    for (int n = 0; n <= N; n++) fact1<R, I>(r, n, small.get(), F, r.red[n], r.skip[n], r.ex[n], n <= 200 || n % 37 == 0);
    int B = mc::tier(m > 128 ? 60 : 110, 250); if (sizeof(R) == 8) B /= 2; for (int n = 0; n <= std::min(B, N); n++) for (int k = 0; k <= n; k++) bin1<R, I>(r, n, k, small.get(), F, r.bin(n, k), r.ex[n] - r.ex[k] - r.ex[n - k], n <= 30 || k % 5 == 0);
    for (int q = 1; q <= 3; q++) for (int d = -2; d <= 2; d++) { ll n = q * m + d; if (n <= B || n > N) continue; std::set<ll> ks; for (ll c : {(ll)0, n / 2, n, p, p * p, m, m / p, 2 * m, n - m, n - p}) for (int x = -1; x <= 1; x++) if (c + x >= 0 && c + x <= n) ks.insert(c + x); for (ll k : ks) bin1<R, I>(r, n, k, small.get(), F, r.bin(n, k), r.ex[n] - r.ex[k] - r.ex[n - k], d == 0); }
    if (m <= 3000) { static const ll big[] = {1000, 4095, 4096, 65535, 65536, 99999, 1000000, 1234567, 2147483647, 4294967295LL, 4294967296LL, 10000000000LL, 1LL << 40, (1LL << 53) - 1, 999999999999LL, 100000000000000000LL, (1LL << 60) + 12345, 1000000000000000000LL}; auto ex = [&](ll n) { ll s = 0; while (n /= p) s += n; return s; };
        for (ll n : big) { fact1<R, int64_t>(r, n, small.get(), F, r.big(n), -1, ex(n), false); for (ll k : {(ll)0, (ll)1, (ll)2, p - 1, p, p + 1, m - 1, m, m + 1, n / 2, n / 3, n / 7 * 3, n - 1, n, n - m, n - m + 1, n / m * m, n / p * p, n % m, (ll)12345, (ll)777, n - 12345, n / p, n / m, n / p / p}) if (k >= 0 && k <= n) { ll b = (L)r.big(n) * Ref::inv((L)r.big(k) * r.big(n - k) % m, m) % m; bin1<R, int64_t>(r, n, k, small.get(), F, b, ex(n) - ex(k) - ex(n - k), k <= 12345 && k % 3 == 0); } } }
}
static void all_pp() { int M = mc::tier(256, 3000); static std::vector<std::pair<int, int>> v; if (v.empty()) for (int p = 2; p <= M; p++) if (prime(p)) { ll m = p; for (int e = 1; m <= M; e++, m *= p) v.push_back({p, e}); } auto x = v[mc::choose((int)v.size())]; mc::state(mc::H()(x.first)(x.second)); pp<int, int>(x.first, x.second); }
static void all_pp64() { int M = mc::tier(128, 2000); static std::vector<std::pair<int, int>> v; if (v.empty()) for (int p = 2; p <= M; p++) if (prime(p)) { ll m = p; for (int e = 1; m <= M; e++, m *= p) if (e > 1 || p < 60) v.push_back({p, e}); } auto x = v[mc::choose((int)v.size())]; mc::state(mc::H()(x.first)(x.second)); pp<int64_t, int64_t>(x.first, x.second); }
template<class R, class I> static void high(ll p, int e) { int N = mc::tier(300, 1500); Ref r(p, e, std::max<int>(N, (int)p * e)); mc::trace("modulo %lld^%d", p, e); auto small = table<R>(r, (int)p * e); for (int n = 0; n <= N; n++) fact1<R, I>(r, n, small.get(), nullptr, r.red[n], r.skip[n], r.ex[n], n % 5 == 0); for (int n = 0; n <= N; n += 1 + n / 13) for (int k = 0; k <= n; k += 1 + n / 29) bin1<R, I>(r, n, k, small.get(), nullptr, r.bin(n, k), r.ex[n] - r.ex[k] - r.ex[n - k], k % 2); }
static void highs() { static const int P[] = {2, 3, 5, 7, 11, 13, 37, 101}; ll p = P[mc::choose(8)]; int e = 1 + mc::choose(40), w = mc::choose(2); if (p == 2 && e > 31) e = e - 31 + 50; ll lim = w ? (1LL << 62) : INT_MAX; L m = 1; for (int i = 0; i < e; i++) { m *= p; if (m > lim) return; } mc::state(mc::H()(p)(e)(w)); if (w) high<int64_t, int64_t>(p, e); else high<int, int>(p, e); }
static ll fac(int n) { ll f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }
static void multi() { int c = mc::choose(5); std::vector<int> v; for (int i = 0; i < c; i++) v.push_back(mc::choose(6)); int n = std::accumulate(v.begin(), v.end(), 0); mc::op(); mc::state(mc::H().range(v)); L w = 1; int s = 0; for (int x : v) for (int i = 1; i <= x; i++) { s++; w = w * s / i; } /* product of binomials, exact */ if (n <= 20) { MC_CHECK(am::multinomial<int64_t>(v) == (ll)w && am::multinomial<int64_t>(v.begin(), v.end()) == (ll)w, "multinomial(%s)", mc::show(v).c_str()); } typedef am::modulo<int, 1000000007, am::modulo_storage::CONSTANT> M; MC_CHECK(am::multinomial<M>(v).v == (int)(w % 1000000007), "multinomial(%s) mod p", mc::show(v).c_str());
    for (int p : {2, 3, 5, 7, 11, 13}) { int e = 0; L t = w; while (t % p == 0) t /= p, e++; MC_CHECK(am::multinomial_prime_exponent(v.begin(), v.end(), p) == e && am::multinomial_prime_exponent(v, p) == e, "multinomial_prime_exponent(%s, %d)", mc::show(v).c_str(), p); } (void)fac; }
static void elems() { int n = mc::choose(9); std::vector<int> v; int x = 0; for (int i = 0; i < n; i++) { if (i) x += mc::choose(2); v.push_back(x); } mc::op(); mc::state(mc::H().range(v)(n)); ll w = fac(n); for (int y = 0; y <= x; y++) w /= fac((int)std::count(v.begin(), v.end(), y)); MC_CHECK(am::elements_multinomial<int64_t>(v) == w && am::elements_multinomial<int64_t>(v.begin(), v.end()) == w, "elements_multinomial(%s) is %lld, expected %lld", mc::show(v).c_str(), (ll)am::elements_multinomial<int64_t>(v), w); std::set<std::vector<int>> perms; if (n <= 7) { auto u = v; ll c = 0; do c++; while (std::next_permutation(u.begin(), u.end())); MC_CHECK(c == w, "arrangements of %s", mc::show(v).c_str()); } }
MC_SETUP(all) { mc::add("all_pp", all_pp, 16); mc::add("all_pp64", all_pp64, 16); mc::add("highs", highs, 16); mc::add("multi", multi, 2); mc::add("elems", elems, 2); }
