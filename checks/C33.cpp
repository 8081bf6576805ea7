// C33 modular equations: every small modulus with every residue, exponent and pair of moduli through every solver, against the full set of solutions.
// MC_BOUNDS: Chinese remainder: every pair of moduli up to 36 (quick) / 60 (thorough) and every pair of residues in four integer types, plus large moduli with a 64-bit lcm; mixed radix for every order of coprime moduli from {2,3,4,5,7,9,11} with every value; Jacobi for every odd modulus up to 151 and every n from -2m to 2m; square roots for every residue modulo every prime up to 400, every prime power up to 3000 and every modulus up to 500/1500 (factorisation in every order), plus large primes; order, primitive root, root of unity, k-th roots, discrete logarithm for every modulus up to 110/200 and every unit, discrete logarithm modulo selected larger primes and prime powers
// MC_ASSUME: documented preconditions: moduli coprime for mixed radix, argument coprime to the modulus and a square for a single square root, cyclic unit group for k-th roots, existing solution for discrete logarithms (only the brute force and baby-step giant-step forms report absence, as -1)
#include "mc.h"
#include <stdint.h>
#include <vector>
#include <set>
#include <algorithm>
#include "altruct/algorithm/math/modulos.h"
using namespace altruct::math; typedef long long ll; typedef unsigned __int128 U; typedef __int128 W; typedef std::vector<std::pair<int, int>> F;
static ll G(ll a, ll b) { while (b) { ll r = a % b; a = b; b = r; } return a < 0 ? -a : a; }
static U powm(U a, U e, U m) { U r = 1 % m; a %= m; for (; e; e >>= 1) { if (e & 1) r = r * a % m; a = a * a % m; } return r; }
static F fac(int n) { F f; for (int p = 2; p <= n; p++) if (n % p == 0) { int e = 0; while (n % p == 0) n /= p, e++; f.push_back({p, e}); } return f; }
static int phi(int n) { int r = 0; for (int i = 1; i <= n; i++) r += G(i, n) == 1; return r; }
static int ord(int a, int m) { int k = 1; ll x = a % m; while (x != 1 % m) { x = x * a % m; k++; } return k; }
static int lambda(int m) { ll l = 1; for (int a = 1; a <= m; a++) if (G(a, m) == 1) { int o = ord(a, m); l = l / G(l, o) * o; } return (int)l; }
static bool prime(int n) { if (n < 2) return false; for (int i = 2; i * i <= n; i++) if (n % i == 0) return false; return true; }
template<class I> static std::vector<I> pf(int n) { std::vector<I> v; for (auto& f : fac(n)) v.push_back((I)f.first); return v; }
static bool cyclic(int m) { if (m == 1 || m == 2 || m == 4) return true; if (m % 2 == 0) m /= 2; return m % 2 == 1 && fac(m).size() == 1; }
template<class S> static std::string sh(const S& s) { std::string r; for (auto x : s) r += std::to_string((ll)x) + " "; return "{" + r + "}"; }
// ---- Chinese remainder
template<class T> static void crt1(T a1, T n1, T a2, T n2) {
    mc::op(); U N1 = n1, N2 = n2, A1 = a1, A2 = a2, g = N1, h = N2; while (h) { U r = g % h; g = h; h = r; } U L = N1 / g * N2; T a = 77, n = 77; chinese_remainder(&a, &n, a1, n1, a2, n2); bool ok = A1 % g == A2 % g;
    if (!ok) MC_CHECK(a == 0 && n == 0, "chinese_remainder(%lld mod %lld, %lld mod %lld) has no solution but gives %lld mod %lld (%d bytes)", (ll)a1, (ll)n1, (ll)a2, (ll)n2, (ll)a, (ll)n, (int)sizeof(T)); else { MC_CHECK((U)n == L && a >= 0 && (U)a < L && (U)a % N1 == A1 && (U)a % N2 == A2, "chinese_remainder(%lld mod %lld, %lld mod %lld) gives %lld mod %lld (%d bytes)", (ll)a1, (ll)n1, (ll)a2, (ll)n2, (ll)a, (ll)n, (int)sizeof(T)); }
    T b = chinese_remainder(a1, n1, a2, n2); MC_CHECK(b == a, "the short form differs"); T c = a1, m = n1; chinese_remainder(&c, &m, a2, n2); MC_CHECK(c == a && m == n, "the accumulating form of %lld mod %lld, %lld mod %lld gives %lld mod %lld", (ll)a1, (ll)n1, (ll)a2, (ll)n2, (ll)c, (ll)m);
}
static void crt() { int N = mc::tier(36, 60), n1 = 1 + mc::choose(N), n2 = 1 + mc::choose(N); mc::state(mc::H()(n1)(n2)); mc::trace("moduli %d and %d", n1, n2); for (int a = 0; a < n1; a++) for (int b = 0; b < n2; b++) { crt1<int>(a, n1, b, n2); crt1<uint32_t>(a, n1, b, n2); crt1<int64_t>(a, n1, b, n2); crt1<uint64_t>(a, n1, b, n2); crt1<ll>(a, n1, b, n2); } }
static void crt3() { int N = 12, n1 = 1 + mc::choose(N), n2 = 1 + mc::choose(N), n3 = 1 + mc::choose(N); mc::state(mc::H()(n1)(n2)(n3)); int L = n1 / (int)G(n1, n2) * n2; L = L / (int)G(L, n3) * n3; for (int x = 0; x < L; x++) { mc::op(); int a = 0, n = 1; chinese_remainder(&a, &n, x % n1, n1); chinese_remainder(&a, &n, x % n2, n2); chinese_remainder(&a, &n, x % n3, n3); MC_CHECK(a == x && n == L, "%d mod %d, %d, %d is reconstructed as %d mod %d", x, n1, n2, n3, a, n); } }
template<class T> static void crt_big() { static const uint64_t ms[] = {1, 2, 3, 6, 10, 1000000007, 998244353, 2147483647, 2147483648ULL, 4294967295ULL, 3037000499ULL, 1000000006, 720720, 1ULL << 30, 1ULL << 40, 1ULL << 62, 9223372036854775807ULL, 4611686018427387903ULL, 3486784401ULL, 614889782588491410ULL}; T n1 = (T)ms[mc::choose(20)], n2 = (T)ms[mc::choose(20)]; mc::state(mc::H()(n1)(n2)); U g = n1, h = n2; while (h) { U r = g % h; g = h; h = r; } U L = (U)n1 / g * n2, lim = std::is_signed<T>::value ? (U)1 << 63 : (U)1 << 64; if (L >= lim) return; U xs[] = {0, 1, L - 1, L / 2, L / 3, L / 7 * 5, (U)n1, (U)n2, (U)n1 - 1, (U)n2 - 1}; for (U x : xs) for (U y : xs) { crt1<T>((T)(x % n1), n1, (T)(y % n2), n2); } }
static void garner_all() { // every order of three or fewer coprime moduli, every value
    static const int M[] = {2, 3, 4, 5, 7, 9, 11}; int k = 1 + mc::choose(4); std::vector<int> m; for (int i = 0; i < k; i++) { int c = M[mc::choose(7)]; for (int x : m) if (G(x, c) != 1) return; m.push_back(c); } int L = 1; for (int x : m) L *= x; mc::state(mc::H().str(mc::show(m))); mc::trace("moduli %s", mc::show(m).c_str());
    for (int x = 0; x < L; x += L > 2000 ? 7 : 1) { mc::op(); std::vector<moduloX<int>> v; std::vector<moduloX<int64_t>> w; for (int c : m) { v.push_back(moduloX<int>(x, c)); w.push_back(moduloX<int64_t>((int64_t)x, (int64_t)c)); } auto r = garner(v); auto s = garner(w); ll q = 1, u = 0; for (int i = 0; i < k; i++) { MC_CHECK(r[i].M() == m[i] && r[i].v >= 0 && r[i].v < m[i] && s[i].v == r[i].v, "garner digit %d of %d for moduli %s is %d mod %d", i, x, mc::show(m).c_str(), r[i].v, r[i].M()); u += q * r[i].v; q *= m[i]; } MC_CHECK(u == x, "garner of %d for moduli %s gives digits of %lld", x, mc::show(m).c_str(), u); }
}
static void jac() { int m = 2 * mc::choose(76) + 1; mc::state(m); for (int n = -2 * m; n <= 2 * m; n++) { mc::op(); int r = 1, nn = ((n % m) + m) % m; for (auto& f : fac(m)) { int p = f.first, l = 0; for (int x = 1; x < p; x++) if (x * x % p == nn % p) l = 1; if (nn % p == 0) l = 0; else if (!l) l = -1; for (int e = 0; e < f.second; e++) r *= l; } MC_CHECK(jacobi(n, m) == r && jacobi<int64_t>(n, m) == r, "jacobi(%d, %d) is %d, expected %d", n, m, jacobi(n, m), r); if (n >= 0) MC_CHECK(jacobi<uint32_t>(n, m) == r && jacobi<uint64_t>(n, m) == r, "unsigned jacobi(%d, %d)", n, m); } }
// ---- square roots
static void cipolla() { int p = 2 + mc::choose(400); if (!prime(p)) return; mc::state(p); for (int x = 1; x < p; x++) { mc::op(); int y = x * x % p, r = sqrt_cipolla(y, p); MC_CHECK(r >= 0 && r < p && r * r % p == y, "sqrt_cipolla(%d, %d) is %d", y, p, r); int64_t s = sqrt_cipolla<int64_t>(y, p); uint32_t t = sqrt_cipolla<uint32_t>(y, p); MC_CHECK(s >= 0 && s < p && s * s % p == y && t * t % p == (uint32_t)y, "sqrt_cipolla(%d, %d) in 64 bits is %lld", y, p, (ll)s); } }
template<class T> static void cipolla_big() { static const uint64_t ps[] = {1000000007, 998244353, 2147483647, 4294967291ULL, 4294967311ULL, 1000000000000000003ULL, 2305843009213693951ULL, 9223372036854775783ULL}; uint64_t p = ps[mc::choose(8)]; mc::state(p); for (int i = 1; i < 60; i++) { U x = i < 20 ? (U)i : i < 40 ? (U)p - i : (U)p / i * 7 % p; if (x == 0) continue; mc::op(); T y = (T)(x * x % p), r = sqrt_cipolla<T>(y, (T)p); MC_CHECK(r >= 0 && (U)r < p && (U)r * (U)r % p == (U)y, "sqrt_cipolla(%llu, %llu) is %llu", (unsigned long long)y, (unsigned long long)p, (unsigned long long)r); } }
template<class T> static void lift2() { int k = 1 + mc::choose(12); mc::state(k); int m = 1 << k; for (int y = 0; y < m; y++) { mc::op(); std::set<ll> want, got; if (y % 2) for (int x = 0; x < m; x++) if (x * x % m == y) want.insert(x); auto r = sqrt_hensel_lift_p2<T>((T)y, (T)k); if (want.empty()) { MC_CHECK(r.first == 0 && r.second == 0, "sqrt_hensel_lift_p2(%d, %d) gives %lld, %lld without a root", y, k, (ll)r.first, (ll)r.second); continue; } for (ll x : {(ll)r.first, (ll)r.second}) { MC_CHECK(x > 0 && x < m, "sqrt_hensel_lift_p2(%d, %d) gives %lld", y, k, x); got.insert(x); got.insert((m - x) % m); } MC_CHECK(got == want, "sqrt_hensel_lift_p2(%d, %d) gives roots %s, expected %s", y, k, sh(got).c_str(), sh(want).c_str()); } }
static void lift2_big() { int k = 13 + mc::choose(49); mc::op(); mc::state(k); for (int i = 0; i < 200; i++) { U m = (U)1 << k, x = i < 100 ? (U)(2 * i + 1) : (m / 3 * (i - 99) / 40) | 1; x %= m; int64_t y = (int64_t)(x * x % m); auto r = sqrt_hensel_lift_p2<int64_t>(y, k); std::set<U> s; for (int64_t z : {r.first, r.second}) { MC_CHECK(z > 0 && (U)z < m && (U)z * (U)z % m == (U)y, "sqrt_hensel_lift_p2(%lld, %d) gives %lld", (ll)y, k, (ll)z); s.insert((U)z); s.insert(m - (U)z); } MC_CHECK(s.size() == 4, "sqrt_hensel_lift_p2(%lld, %d) gives dependent roots", (ll)y, k); } }
static void lift() { int q = 3 + mc::choose(2998); F f = fac(q); if (f.size() != 1 || f[0].first == 2) return; mc::state(q); int p = f[0].first, k = f[0].second; for (int x = 1; x < q; x++) if (x % p) { mc::op(); int y = (int)((ll)x * x % q); int r = sqrt_hensel_lift<int>(y, p, k); MC_CHECK(r >= 0 && r < q && (ll)r * r % q == y, "sqrt_hensel_lift(%d, %d, %d) is %d", y, p, k, r); if (x < 40) { int64_t s = sqrt_hensel_lift<int64_t>(y, p, k); MC_CHECK(s == r || s == q - r, "sqrt_hensel_lift(%d, %d, %d) in 64 bits is %lld", y, p, k, (ll)s); } } }
static void lift_big() { static const int ps[] = {3, 5, 7, 11, 101, 10007}; int p = ps[mc::choose(6)], k = 1 + mc::choose(39); U q = 1; for (int i = 0; i < k; i++) { q *= p; if (q >= (U)1 << 62) return; } mc::op(); mc::state((uint64_t)q); for (int i = 1; i < 60; i++) { U x = i < 30 ? (U)i : q / i * 3 + 1; x %= q; if (x % p == 0) continue; int64_t y = (int64_t)(x * x % q), r = sqrt_hensel_lift<int64_t>(y, p, k); MC_CHECK(r > 0 && (U)r < q && (U)r * (U)r % q == (U)y, "sqrt_hensel_lift(%lld, %d, %d) is %lld", (ll)y, p, k, (ll)r); } }
template<class I> static void sq1(ll y, int m, const std::set<ll>& want, const std::vector<std::pair<I, int>>& f) { auto v = sqrt_mod<I>((I)y, f); std::set<ll> got(v.begin(), v.end()); MC_CHECK(got == want && got.size() == v.size(), "sqrt_mod(%lld, %d) is %s, expected %s (%d bytes)", y, m, sh(got).c_str(), sh(want).c_str(), (int)sizeof(I)); }
static void sqmod() { int m = 1 + mc::choose(mc::tier(500, 1500)); mc::state(m); F f = fac(m); std::vector<std::set<ll>> want(m); for (int x = 0; x < m; x++) want[x * x % m].insert(x); std::sort(f.begin(), f.end()); do { std::vector<std::pair<int64_t, int>> f64(f.begin(), f.end()); for (int y = 0; y < m; y++) if (G(y, m) == 1) { mc::op(); sq1<int>(y, m, want[y], f); if (m < 200) { sq1<int64_t>(y, m, want[y], f64); sq1<int64_t>(y + m, m, want[y], f64); } } } while (std::next_permutation(f.begin(), f.end())); }
static void sqmod_big() { struct X { std::vector<std::pair<int64_t, int>> f; }; static const X c[] = {{{{1000000007, 1}, {998244353, 1}}}, {{{2, 40}, {3, 10}}}, {{{3, 38}}}, {{{2, 61}}}, {{{2147483647, 2}}}, {{{2, 3}, {3, 2}, {5, 1}, {7, 1}, {1000000007, 1}}}, {{{1000000000000000003LL, 1}}}}; int ci = mc::choose(7); mc::state(ci); U m = 1; for (auto& p : c[ci].f) for (int e = 0; e < p.second; e++) m *= p.first; for (int i = 1; i < 40; i++) { U x = i < 20 ? (U)i : m / i * 3 + 1; bool cop = true; size_t count = 1; for (auto& p : c[ci].f) { if (x % p.first == 0) cop = false; count *= p.first == 2 ? (p.second == 1 ? 1 : p.second == 2 ? 2 : 4) : 2; } if (!cop) continue; mc::op(); int64_t y = (int64_t)(x * x % m); auto v = sqrt_mod<int64_t>(y, c[ci].f); std::set<int64_t> s(v.begin(), v.end()); MC_CHECK(s.size() == count && v.size() == count, "sqrt_mod of %lld in case %d has %d roots, expected %d", (ll)y, ci, (int)s.size(), (int)count); for (int64_t r : s) MC_CHECK(r >= 0 && (U)r < m && (U)r * (U)r % m == (U)y, "sqrt_mod of %lld in case %d gives %lld", (ll)y, ci, (ll)r); } }
// ---- group structure
static void groups() {
    int m = 1 + mc::choose(mc::tier(110, 200)); mc::state(m); int ph = phi(m), lam = lambda(m); auto pp = pf<int>(ph); auto lp = pf<int>(lam); std::vector<int64_t> pp64(pp.begin(), pp.end()); int best = 0; prime_holder prim(300); mc::trace("modulus %d", m);
    std::vector<int> rpp(pp.rbegin(), pp.rend());
    for (int a = 1; a <= m; a++) if (G(a, m) == 1) { mc::op(); int o = ord(a, m); best = std::max(best, o); int k = multiplicative_order<int>(a % m, m, ph, pp); MC_CHECK(k == o && multiplicative_order<int>(a % m, m, ph, rpp) == o && multiplicative_order<int64_t>(a % m, m, ph, pp64) == o && multiplicative_order<int>(a % m, m, lam, lp) == o, "multiplicative_order(%d, %d) is %d, expected %d", a, m, k, o); }
    if (m > 1) { int g = primitive_root<int>(m, ph, pp), h = primitive_root(m, prim); int64_t g64 = primitive_root<int64_t>(m, ph, pp64); MC_CHECK(g == h && g64 == g, "primitive_root(%d) depends on the form", m); if (cyclic(m)) MC_CHECK(g > 0 && g < m && G(g, m) == 1 && ord(g, m) == ph, "primitive_root(%d) is %d", m, g); else MC_CHECK(g == 0, "primitive_root(%d) is %d, there is none", m, g); int r = primitive_root_of_unity<int>(m, lam, lp), s = primitive_root_of_unity(m, prim); MC_CHECK(r == s && r > 0 && r < m && G(r, m) == 1 && ord(r, m) == lam && best == lam, "primitive_root_of_unity(%d) is %d, carmichael %d", m, r, lam); }
    if (m > 1 && cyclic(m)) {
        int g = primitive_root<int>(m, ph, pp); std::vector<int> pw(ph); ll x = 1 % m; for (int l = 0; l < ph; l++) { pw[l] = (int)x; x = x * g % m; }
        for (int k = 1; k <= 2 * ph + 2; k++) { mc::op(); std::vector<std::set<int>> want(m); for (int a = 1; a <= m; a++) if (G(a, m) == 1) want[(int)powm(a, k, m)].insert(a % m); auto s = kth_roots_of_unity<int>(m, k, lam, g); MC_CHECK(s == want[1 % m] && kth_roots_of_unity(m, k, prim) == s, "kth_roots_of_unity(%d, %d) is %s, expected %s", m, k, sh(s).c_str(), sh(want[1 % m]).c_str()); if (k <= ph + 3) for (int l = 0; l < ph; l++) { auto t = kth_roots<int>(m, k, ph, g, l); MC_CHECK(t == want[pw[l]], "kth_roots(m %d, k %d, l %d) is %s, expected %s", m, k, l, sh(t).c_str(), sh(want[pw[l]]).c_str()); if (m < 40) { auto u = kth_roots<int64_t>(m, k, ph, g, l); MC_CHECK(std::set<int>(u.begin(), u.end()) == t, "64-bit kth_roots(%d, %d, %d)", m, k, l); } } }
    }
}
static void dlog() {
    int m = 1 + mc::choose(mc::tier(110, 200)); mc::state(m); int ph = phi(m); auto pp = pf<int>(ph); std::vector<int64_t> pp64(pp.begin(), pp.end()); F f = fac(m); mc::trace("modulus %d", m);
    for (int a = 0; a < m; a++) if (G(a, m) == 1) { int o = ord(a, m); std::vector<int> least(m, -1); ll x = 1 % m; for (int e = 0; e < o; e++) { least[x] = e; x = x * a % m; }
        for (int b = 0; b < m; b++) if (G(b, m) == 1) { mc::op(); int bf = discrete_log_brute_force<int>(a, b, m); MC_CHECK(bf == least[b], "discrete_log_brute_force(%d, %d, %d) is %d, expected %d", a, b, m, bf, least[b]);
            for (int n : {ph, o}) { int bg = discrete_log_baby_giant<int>(a, b, m, n); MC_CHECK(least[b] < 0 ? bg == -1 : bg >= 0 && powm(a, bg, m) == (U)b, "discrete_log_baby_giant(%d, %d, %d, order %d) is %d", a, b, m, n, bg); }
            if (least[b] < 0) continue;
            #define D(e, what) do { auto r_ = (e); MC_CHECK(r_ >= 0 && powm(a, (U)r_, m) == (U)b, what "(%d, %d, %d) is %lld, least %d", a, b, m, (ll)r_, least[b]); } while (0)
            int oo = -1; D(discrete_log<int>(a, b, m, ph, pp, &oo), "discrete_log"); MC_CHECK(oo == o, "discrete_log(%d, %d, %d) reports the order %d, expected %d", a, b, m, oo, o); D(discrete_log<int64_t>(a, b, m, ph, pp64), "discrete_log 64");
            if (f.size() == 1) { int p = f[0].first, s = f[0].second; D(discrete_log_pp<int>(a, b, p, s), "discrete_log_pp"); D(discrete_log_pp<int64_t>(a, b, p, s), "discrete_log_pp 64"); if (p == 2) D(discrete_log_p2<int>(a, b, s), "discrete_log_p2"); else if (s == 1) { D(discrete_log_oddp<int>(a, b, p), "discrete_log_oddp"); D(discrete_log_shanks<int>(a, b, p), "discrete_log_shanks"); } }
            F fo = fac(o); if (fo.size() == 1) D((discrete_log_order_pp_g<moduloX<int>, int>(moduloX<int>(a, m), moduloX<int>(b, m), fo[0].first, fo[0].second + 1)), "discrete_log_order_pp_g");
        } }
}
static void dlog_big() { // larger prime powers and primes: every exponent on a grid
    static const struct { int p, s; } c[] = {{2, 10}, {2, 20}, {3, 5}, {3, 8}, {5, 4}, {7, 3}, {11, 3}, {101, 2}, {1009, 2}, {1103, 1}, {7919, 1}, {10007, 1}, {1103, 2}}; int i = mc::choose(13), p = c[i].p, s = c[i].s; int ai = mc::choose(24); int64_t m = 1; for (int k = 0; k < s; k++) m *= p; mc::state(mc::H()(i)(ai)); int64_t a = (ai < 14 ? ai + 2 : ai < 20 ? m / 7 * (ai - 13) + 3 : ai == 20 ? m - 1 : ai == 21 ? 1 + m / p : ai == 22 ? 1 + p : p - 1) % m; if (a % p == 0 || a == 0) return; int64_t ph = m / p * (p - 1); std::vector<int64_t> pp; for (auto& f : fac((int)ph)) pp.push_back(f.first); mc::trace("%lld mod %d^%d", (ll)a, p, s);
    for (int e = 0; e < 300; e++) { U x = e < 150 ? (U)e : (U)ph / 150 * (e - 150) + e; int64_t b = (int64_t)powm(a, x, m); mc::op(); auto chk = [&](int64_t r, const char* w) { MC_CHECK(r >= 0 && powm(a, r, m) == (U)b, "%s(%lld, %lld, %d^%d) is %lld", w, (ll)a, (ll)b, p, s, (ll)r); }; if ((U)m * m / p < (U)1 << 62) chk(discrete_log_pp<int64_t>(a, b, p, s), "discrete_log_pp"); chk(discrete_log<int64_t>(a, b, m, ph, pp), "discrete_log"); if (p == 2) chk(discrete_log_p2<int64_t>(a, b, s), "discrete_log_p2"); if (s == 1 && e % 10 == 0) { chk(discrete_log_oddp<int64_t>(a, b, p), "discrete_log_oddp"); chk(discrete_log_shanks<int>((int)a, (int)b, p), "discrete_log_shanks"); } }
}
MC_SETUP(all) { mc::add("crt", crt, 16); mc::add("crt3", crt3, 4); mc::add("crt_big_signed", crt_big<int64_t>, 2); mc::add("crt_big_unsigned", crt_big<uint64_t>, 2); mc::add("garner", garner_all, 8); mc::add("jacobi", jac, 4); mc::add("cipolla", cipolla, 8); mc::add("cipolla_big_signed", cipolla_big<int64_t>, 1); mc::add("cipolla_big_unsigned", cipolla_big<uint64_t>, 1); mc::add("lift2", lift2<int>, 2); mc::add("lift2_64", lift2<int64_t>, 2); mc::add("lift2_big", lift2_big, 1); mc::add("lift", lift, 8); mc::add("lift_big", lift_big, 2); mc::add("sqrt_mod", sqmod, 16); mc::add("sqrt_mod_big", sqmod_big, 1); mc::add("groups", groups, 16); mc::add("dlog", dlog, 16); mc::add("dlog_big", dlog_big, 16); }
