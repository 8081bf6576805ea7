// C35 primality testing and factoring: every integer up to a bound, every strong-pseudoprime boundary, every product of up to four primes of a structured set, against trial division / the known factors.
// MC_BOUNDS: every integer up to 300000/3000000 (32 and 64 bit, signed and unsigned); every window of 201/2001 integers around 28 boundaries (powers of two up to 2^64, the first strong pseudoprimes of every base set, largest primes); every product of up to 4 of 26 primes (2..2^32-5 and primes around 10^12, 10^15, 2^61, 2^63) that fits signed resp. unsigned 64 bits; every odd n <= 1500/6000 with every single base and every pair of bases up to 12; pollard_rho for every n <= 400/3000 with every k <= 24 and a <= 12; from_primes for every subset of 6 primes (every order for up to three) and every bound up to 300 plus INT_MAX/INT64_MAX; fraction_reduce for every pair of lists of up to 2 numbers up to 14
// MC_ASSUME: integers to be tested or factored are non-negative; from_primes bounds are positive
#include "mc.h"
#include <stdint.h>
#include <limits.h>
#include <string.h>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include "altruct/algorithm/math/factorization.h"
namespace am = altruct::math; typedef unsigned long long ull; typedef unsigned __int128 u128; typedef long long ll;
static ull pw(ull a, ull e, ull m) { ull r = 1 % m; a %= m; for (; e; e >>= 1, a = (u128)a * a % m) if (e & 1) r = (u128)r * a % m; return r; }
static bool spsp(ull n, ull a) { /* odd n > 3, 1 < a < n */ ull d = n - 1; int r = 0; while (d % 2 == 0) d /= 2, r++; ull x = pw(a, d, n); if (x == 1 || x == n - 1) return true; for (int i = 1; i < r; i++) { x = (u128)x * x % n; if (x == n - 1) return true; } return false; }
static bool isprime(ull n) { if (n < 2) return false; for (ull p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41}) { if (n == p) return true; if (n % p == 0) return false; } if (n < 43 * 43) return true; for (ull p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41}) if (!spsp(n, p)) return false; return true; } // deterministic below 2^64 (Sorenson & Webster)
static std::vector<int> SPF;
static void sieve(int n) { if ((int)SPF.size() > n) return; SPF.assign(n + 1, 0); for (int i = 2; i <= n; i++) if (!SPF[i]) for (ll j = i; j <= n; j += i) if (!SPF[j]) SPF[j] = i; }
typedef std::map<ull, int> FM;
static FM small_fac(int n) { FM f; while (n > 1) { f[SPF[n]]++; n /= SPF[n]; } return f; }
template<class V> static void same(const V& v, const FM& want, ull n, const char* w) {
    FM g; std::string s; for (auto& x : v) { s += std::to_string((ull)x.first) + "^" + std::to_string(x.second) + " "; MC_CHECK(!g.count((ull)x.first), "%s(%llu) lists %llu twice", w, n, (ull)x.first); g[(ull)x.first] = x.second; }
    MC_CHECK(g == want, "%s(%llu) gives %s", w, n, s.c_str());
}
template<class T> static void prime_one(T n, bool want) { bool g = am::miller_rabin<T>(n); MC_CHECK(g == want, "miller_rabin(%llu) (%d bit, %ssigned) is %d", (ull)n, (int)sizeof(T) * 8, (T)-1 > 0 ? "un" : "", g); }
static void all_small() {
    int N = mc::tier(300000, 3000000), B = 1000, b = mc::choose(N / B); sieve(N); mc::state(b); mc::trace("integers %d..%d", b * B, b * B + B - 1);
    for (int n = b * B; n < b * B + B; n++) { mc::op(); bool p = n > 1 && SPF[n] == n; prime_one<int>(n, p); prime_one<unsigned>(n, p); prime_one<int64_t>(n, p); prime_one<uint64_t>(n, p); FM f = small_fac(n); if (n == 0) { MC_CHECK(am::factor_integer(0).empty(), "factor_integer(0)"); continue; } same(am::factor_integer(n), f, n, "factor_integer"); same(am::factor_integer((int64_t)n), f, n, "factor_integer 64"); auto s = am::factor_integer_slow(n); same(s, f, n, "factor_integer_slow"); MC_CHECK(std::is_sorted(s.begin(), s.end()), "factor_integer_slow order"); if (n % 7 == 0) { same(am::factor_integer((unsigned)n), f, n, "factor_integer unsigned"); same(am::factor_integer((uint64_t)n), f, n, "factor_integer uint64"); same(am::factor_integer_slow((int64_t)n), f, n, "factor_integer_slow 64"); }
        std::vector<std::pair<int, int>> g; for (auto& x : f) g.push_back({(int)x.first, x.second}); MC_CHECK(am::from_factorization(g) == n && (am::from_factorization<int, int64_t>(g)) == n, "from_factorization of %d", n); std::reverse(g.begin(), g.end()); MC_CHECK(am::from_factorization(g) == n, "from_factorization of %d (reversed)", n);
        if (n <= 5000) for (int q : {2, 3, 4, 5, 6, 7, 10, 12, 13, 47}) { int e = 3, m = n, k = 0; while (m % q == 0) m /= q, k++; int r = am::factor_out(n, q, e); MC_CHECK(r == m && e == 3 + k, "factor_out(%d, %d) gives %d with exponent %d", n, q, r, e - 3); long long e2 = -5; MC_CHECK(am::factor_out((int64_t)n * 1000003, q, e2) == (int64_t)m * 1000003 && e2 == k - 5, "factor_out 64"); } }
}
static void windows() {
    static const ull c[] = {1ull << 10, 2047, 1ull << 15, 1ull << 16, 1373653, 9080191, 25326001, 1ull << 24, 1ull << 31, 3215031751ull, 1ull << 32, 4759123141ull, 1ull << 33, 1122004669633ull, 2152302898747ull, 3474749660383ull, 341550071728321ull, 1ull << 48, 1ull << 53, 1000000000000000000ull, 1ull << 61, 1ull << 62, 3825123056546413051ull, 9223372036854775807ull - 1000, 9223372036854775807ull + 1000, 10000000000000000000ull, 18446744073709551615ull - 1001, 341531ull * 341531};
    int W = mc::tier(100, 1000); ull x = c[mc::choose(28)]; int s = mc::choose(5); mc::state(mc::H()(x)(s)); mc::trace("integers around %llu", x);
    for (ull n = x - W + s; n <= x + W; n += 5) { mc::op(); bool p = isprime(n); prime_one<uint64_t>(n, p); if (n <= INT64_MAX) prime_one<int64_t>((int64_t)n, p); if (n <= INT_MAX) prime_one<int>((int)n, p); if (n <= UINT_MAX) prime_one<unsigned>((unsigned)n, p); }
}
static void pseudo() { // strong pseudoprimes to many bases and Carmichael numbers
    static const ull c[] = {561, 1105, 1729, 2465, 2821, 6601, 8911, 41041, 825265, 321197185, 5394826801ull, 232250619601ull, 9746347772161ull, 1436697831295441ull, 60977817398996785ull, 7156857700403137441ull, 2047, 3277, 4033, 4681, 8321, 15841, 29341, 1373653, 1530787, 25326001, 161304001, 3215031751ull, 2152302898747ull, 3474749660383ull, 341550071728321ull, 3825123056546413051ull, 9080191, 4759123141ull, 1122004669633ull, 3317044064679887385ull, 4341937413061987ull, 55245642489451ull, 7999252175582851ull, 585226005592931977ull, 18446744073709551556ull, 18446744073709551557ull, 9223372036854775783ull, 2305843009213693951ull};
    ull n = c[mc::choose(sizeof c / sizeof *c)]; mc::op(); mc::state(n); mc::trace("number %llu", n); prime_one<uint64_t>(n, isprime(n)); if (n <= INT64_MAX) prime_one<int64_t>((int64_t)n, isprime(n));
    auto f = am::factor_integer<uint64_t>(n); u128 p = 1; std::set<ull> seen; for (auto& x : f) { MC_CHECK(isprime(x.first) && x.second > 0 && seen.insert(x.first).second, "factor_integer(%llu) reports the factor %llu^%d", n, (ull)x.first, x.second); for (int i = 0; i < x.second; i++) p *= x.first; } MC_CHECK(p == n, "factor_integer(%llu): product of the factors is wrong", n); if (n <= INT64_MAX) { FM m; for (auto& x : f) m[x.first] = x.second; same(am::factor_integer((int64_t)n), m, n, "factor_integer"); }
}
static void products() {
    static const ull P[] = {2, 3, 5, 7, 11, 13, 31, 101, 251, 257, 1009, 46337, 46349, 65521, 65537, 1000003, 2097143, 16777213, 1000000007, 2147483647, 3037000493ull, 4294967291ull, 1000000000039ull, 1000000000000037ull, 2305843009213693951ull, 9223372036854775783ull}; const int K = 26;
    int a = mc::choose(K), b = mc::choose(K + 1 - a); FM f; u128 n = P[a]; f[P[a]]++; uint64_t h = a; std::vector<int> id{a}; int last = a;
    if (b) { last = a + b - 1; n *= P[last]; f[P[last]]++; id.push_back(last); if (n >> 64) return; int c = mc::choose(K + 1 - last); if (c) { last += c - 1; n *= P[last]; if (n >> 64) return; f[P[last]]++; id.push_back(last); int d = mc::choose(K + 1 - last); if (d) { last += d - 1; n *= P[last]; if (n >> 64) return; f[P[last]]++; id.push_back(last); } } }
    ull N = (ull)n; mc::op(); mc::state(N); mc::trace("product %llu of %s", N, mc::show(id).c_str()); (void)h; bool p = id.size() == 1;
    prime_one<uint64_t>(N, p); if (N <= INT64_MAX) prime_one<int64_t>((int64_t)N, p);
    bool heavy = id.size() >= 2 && P[id[id.size() - 2]] > 20000000; // the second largest factor determines the cost
    if (heavy && id.size() > 2 && !mc::thorough() && id[0] % 3) return;
    if (N <= INT64_MAX) same(am::factor_integer((int64_t)N), f, N, "factor_integer"); else same(am::factor_integer((uint64_t)N), f, N, "factor_integer uint64");
    if (N <= UINT_MAX) { same(am::factor_integer((unsigned)N), f, N, "factor_integer 32u"); same(am::factor_integer_slow((unsigned)N), f, N, "factor_integer_slow 32u"); if (N <= INT_MAX) { same(am::factor_integer((int)N), f, N, "factor_integer 32"); same(am::factor_integer_slow((int)N), f, N, "factor_integer_slow 32"); } } if (N <= INT64_MAX && (id.size() < 2 ? N < 3000000000000ull : P[id[id.size() - 2]] < 2000000 && P[id.back()] < 1000000000000ull)) same(am::factor_integer_slow((int64_t)N), f, N, "factor_integer_slow 64");
    std::vector<std::pair<ull, int>> g(f.begin(), f.end()); MC_CHECK((am::from_factorization<ull, ull>(g)) == N, "from_factorization of %llu", N);
}
static void bases() {
    int n = 2 * mc::choose(mc::tier(750, 3000)) + 3; mc::op(); mc::state(n); sieve(6100); auto pp = [&](int a) { return a % n == 0 ? false : spsp(n, a); };
    for (int a = 2; a < n; a++) { int v[] = {a, 0}; int64_t w[] = {a, 0}; bool want = n == 3 || pp(a); MC_CHECK(am::miller_rabin(n, v) == want && am::miller_rabin((int64_t)n, w) == want, "miller_rabin(%d, {%d}) is %d", n, a, am::miller_rabin(n, v)); }
    for (int a = 2; a <= 12; a++) for (int b = a + 1; b <= 12; b++) { int v[] = {a, b, 0}; bool want = n == 3 || ((a >= n || pp(a)) && (b >= n || pp(b))); MC_CHECK(am::miller_rabin(n, v) == want, "miller_rabin(%d, {%d, %d}) is %d", n, a, b, !want); if (SPF[n] == n) MC_CHECK(want, "reference"); int e = n - 1; MC_CHECK(am::miller_rabin(e, v) == (e == 2), "miller_rabin(%d, {%d, %d})", e, a, b); }
}
static void rho() {
    int n = mc::choose(mc::tier(401, 3001)); mc::state(n); for (int k = 0; k <= 24; k++) for (int a = 1; a <= 12; a++) { mc::op(); int d = am::pollard_rho(n, k, a); bool ok = n == 0 ? d == 0 : n == 1 ? d == 1 : d > 1 && d <= n && n % d == 0; MC_CHECK(ok, "pollard_rho(%d, %d, %d) is %d", n, k, a, d); int64_t e = am::pollard_rho<int64_t>(n, k, a, 5); ok = n == 0 ? e == 0 : n == 1 ? e == 1 : e > 1 && e <= n && n % e == 0; MC_CHECK(ok, "pollard_rho(%d, %d, %d, 5) is %lld", n, k, a, (ll)e); }
    sieve(3000); if (n > 1) { int d = am::pollard_rho_repeated(n); MC_CHECK(d > 1 && n % d == 0 && (SPF[n] == n ? d == n : d < n), "pollard_rho_repeated(%d) is %d", n, d); }
}
template<class I> static void gen(const std::vector<int>& vp, I n_max, const std::set<ll>& want) { std::set<ll> got; am::from_primes(vp, n_max, [&](const std::vector<std::pair<int, int>>& vf, I n) { ll p = 1; std::set<int> ps; for (auto& x : vf) { MC_CHECK(x.second > 0 && std::count(vp.begin(), vp.end(), x.first) && ps.insert(x.first).second, "bad factorization of %lld", (ll)n); for (int i = 0; i < x.second; i++) p *= x.first; } MC_CHECK(p == (ll)n, "from_primes(%s, %lld) reports %lld with the factorization of %lld", mc::show(vp).c_str(), (ll)n_max, (ll)n, p); MC_CHECK(got.insert(n).second, "from_primes(%s, %lld) reports %lld twice", mc::show(vp).c_str(), (ll)n_max, (ll)n); }); MC_CHECK(got == want, "from_primes(%s, %lld) generates %s, expected %s", mc::show(vp).c_str(), (ll)n_max, mc::show(got).c_str(), mc::show(want).c_str()); }
static void closure(const std::vector<int>& vp, ll mx, std::set<ll>& s) { std::vector<ll> q{1}; s.insert(1); while (!q.empty()) { ll x = q.back(); q.pop_back(); for (int p : vp) if (x <= mx / p && s.insert(x * p).second) q.push_back(x * p); } }
static void from_primes() {
    static const int P[] = {2, 3, 5, 7, 13, 101}; int m = mc::choose(64); std::vector<int> vp; for (int i = 0; i < 6; i++) if (m >> i & 1) vp.push_back(P[i]); mc::state(m); if (vp.size() > 1 && mc::choose(2)) std::reverse(vp.begin(), vp.end()); else if (vp.size() == 3 && mc::choose(2)) std::swap(vp[1], vp[2]);
    std::set<ll> all, s; closure(vp, 400, all); for (int n = 1; n <= 300; n++) { mc::op(); if (all.count(n)) s.insert(n); if (n % 3 == 0 || all.count(n) || all.count(n + 1)) { gen<int>(vp, n, s); gen<int64_t>(vp, n, s); } } if (vp.size() <= 3) { std::set<ll> t; closure(vp, INT_MAX, t); gen<int>(vp, INT_MAX, t); if (vp.size() <= 2) { t.clear(); closure(vp, INT64_MAX, t); gen<int64_t>(vp, INT64_MAX, t); } }
}
static ll G(ll a, ll b) { return b ? G(b, a % b) : a; }
static void reduce() { std::vector<int> n, d; int k = mc::choose(3), l = mc::choose(3); for (int i = 0; i < k; i++) n.push_back(1 + mc::choose(14)); for (int i = 0; i < l; i++) d.push_back(1 + mc::choose(14)); mc::op(); mc::state(mc::H().range(n).range(d)); auto a = n; auto b = d; am::fraction_reduce(a, b, [](int x, int y) { return (int)G(x, y); }); ll p = 1, q = 1, r = 1, s = 1; for (int x : n) p *= x; for (int x : d) q *= x; for (int x : a) r *= x; for (int x : b) s *= x; MC_CHECK(a.size() == n.size() && b.size() == d.size() && p * s == q * r && r > 0 && G(r, s) == 1, "fraction_reduce(%s / %s) gives %s / %s", mc::show(n).c_str(), mc::show(d).c_str(), mc::show(a).c_str(), mc::show(b).c_str()); }
MC_SETUP(all) { mc::add("all_small", all_small, 16); mc::add("windows", windows, 8); mc::add("pseudo", pseudo, 8); mc::add("products", products, 16); mc::add("bases", bases, 8); mc::add("rho", rho, 4); mc::add("from_primes", from_primes, 8); mc::add("reduce", reduce, 4); }
