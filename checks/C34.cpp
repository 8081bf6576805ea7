// C34 sieves: every bound, every segment and every request order against trial division, in arrays of exactly the documented size.
// MC_BOUNDS: every sieve for every bound 0..500 (quick) / 0..2500 (thorough) and selected bounds to 100000, arrays of exactly the documented size under AddressSanitizer; every segment [b, e) with 0 <= b <= e <= 150/300 and every segment of length up to 40 around 10^3, 10^4, 10^6, 10^9, 10^12 and around squares of primes, with exactly the primes required, one more, and many more; factorisation-derived functions for every integer up to 3000/20000; every list of up to 3 integers up to 14; digits of every n up to 3000 in every base up to 36; every sequence of 3/4 requests to a prime holder of every size up to 12 and selected sizes to 100000
// MC_ASSUME: index 0 of the divisor tables is not defined; factorisation arguments are positive
#include "mc.h"
#include <stdint.h>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <math.h>
#include "altruct/algorithm/math/primes.h"
#include "altruct/structure/math/prime_holder.h"
#include "altruct/structure/math/factorial_holder.h"
#include "altruct/structure/math/modulo.h"
using namespace altruct::math; typedef long long ll; typedef std::vector<std::pair<int, int>> F;
struct Ref { bool prime; int pi, nu, mu, spf, bpf, mer; ll phi, s0, s1; F f; };
static std::vector<std::pair<ll, int>> fac(ll n) { std::vector<std::pair<ll, int>> f; for (ll p = 2; p * p <= n; p++) if (n % p == 0) { int e = 0; while (n % p == 0) n /= p, e++; f.push_back({p, e}); } if (n > 1) f.push_back({n, 1}); return f; }
static const std::vector<Ref>& ref(int n) { static std::vector<Ref> v; for (int i = (int)v.size(); i <= n; i++) { Ref r; auto f = fac(i); r.prime = i > 1 && f.size() == 1 && f[0].second == 1; r.pi = (i ? v[i - 1].pi : 0) + r.prime; r.nu = i ? (int)f.size() : 0; r.phi = i; r.s0 = r.s1 = 1; r.mu = i ? 1 : 0; r.f.clear(); for (auto& x : f) { r.phi = r.phi / x.first * (x.first - 1); r.s0 *= x.second + 1; ll s = 1; for (int e = 0; e < x.second; e++) s = s * x.first + 1; r.s1 *= s; r.mu = x.second > 1 ? 0 : -r.mu; r.f.push_back({(int)x.first, x.second}); } r.spf = f.empty() || r.prime ? 0 : (int)f[0].first; r.bpf = f.empty() ? i : (int)f.back().first; r.mer = (i ? v[i - 1].mer : 0) + r.mu; v.push_back(r); } return v; }
template<class T> struct Arr { std::unique_ptr<T[]> a; int n; explicit Arr(int n) : a(new T[n]), n(n) { for (int i = 0; i < n; i++) a[i] = (T)-77; } T* p() { return a.get(); } T operator[](int i) const { return a[i]; } };
static void sieve_bound(int n) {
    const auto& R = ref(n); mc::op(); mc::state(n); mc::trace("bound %d", n); int m = n ? R[n - 1].pi : 0; std::vector<int> P; for (int i = 0; i < n; i++) if (R[i].prime) P.push_back(i);
    auto same = [&](const Arr<int>& a, const char* w) { for (int i = 0; i < m; i++) MC_CHECK(a[i] == P[i], "%s: prime %d up to %d is %d, expected %d", w, i, n, a[i], P[i]); };
    Arr<int> p(m); { Arr<char> q(n); int c = primes(p.p(), q.p(), n); MC_CHECK(c == m, "primes(p, q, %d) returns %d, expected %d", n, c, m); same(p, "primes(p, q)"); for (int i = 0; i < n; i++) MC_CHECK(q[i] == (R[i].prime ? 1 : 0), "flag of %d for the bound %d is %d", i, n, q[i]); } { Arr<int> q(n); MC_CHECK(primes(q.p(), nullptr, n) == m, "primes(p, null, %d)", n); same(q, "primes(p, null)"); } { Arr<char> q(n); MC_CHECK(n == 0 || primes(nullptr, q.p(), n) == m, "primes(null, q, %d)", n); for (int i = 0; n > 0 && i < n; i++) MC_CHECK(q[i] == (R[i].prime ? 1 : 0), "flag of %d for the bound %d (flags only)", i, n); }
    #define S(call, T, field, from, w) { Arr<T> a(n); call; for (int i = from; i < n; i++) MC_CHECK(a[i] == R[i].field, w " of %d with the bound %d is %lld, expected %lld", i, n, (ll)a[i], (ll)R[i].field); }
    S(prime_pi(a.p(), n, p.p(), m), int, pi, 0, "prime_pi") S(euler_phi(a.p(), n, p.p(), m), int, phi, 0, "euler_phi") S(moebius_mu(a.p(), n, p.p(), m), int, mu, 0, "moebius_mu") S(moebius_mu(a.p(), n), int, mu, 0, "moebius_mu without primes") S(prime_nu(a.p(), n, p.p(), m), int, nu, 0, "prime_nu") S(divisor_sigma0(a.p(), n), int, s0, 1, "divisor_sigma0") S(divisor_sigma1(a.p(), n), int64_t, s1, 1, "divisor_sigma1") S(smallest_factor(a.p(), (size_t)n), int, spf, 0, "smallest_factor") S(factor(a.p(), n, p.p(), m), int, bpf, 0, "factor")
}
static const std::vector<int>& many() { static std::vector<int> v; if (v.empty()) { std::vector<char> q(1100000, 1); for (int i = 2; i < 1100000; i++) if (q[i]) { v.push_back(i); for (ll j = (ll)i * i; j < 1100000; j += i) q[j] = 0; } } return v; }
static void segment(ll b, ll e) {
    mc::op(); const auto& P = many(); int base = 0; while ((ll)P[base] * P[base] < e) base++; /* primes p with p^2 < e */ int n = (int)(e - b); std::vector<std::vector<std::pair<ll, int>>> f; for (ll x = b; x < e; x++) { ll y = x; std::vector<std::pair<ll, int>> g; if (x > 0) for (int i = 0; i < (int)P.size() && (ll)P[i] * P[i] <= y; i++) if (y % P[i] == 0) { int k = 0; while (y % P[i] == 0) y /= P[i], k++; g.push_back({P[i], k}); } if (y > 1) g.push_back({y, 1}); f.push_back(g); }
    for (int extra : {0, 1, 2, 30}) { int m = base + extra; Arr<int> p(m); for (int i = 0; i < m; i++) p.a[i] = P[i]; Arr<char> q(n); Arr<int64_t> ph(n), tmp(n), mu(n); segmented_q(q.p(), b, e, p.p(), m); segmented_phi(ph.p(), tmp.p(), b, e, p.p(), m); segmented_mu(mu.p(), b, e, p.p(), m);
        for (int i = 0; i < n; i++) { ll x = b + i, want = x; int mw = x ? 1 : 0; for (auto& t : f[i]) { want = want / t.first * (t.first - 1); mw = t.second > 1 ? 0 : -mw; } bool pr = x > 1 && f[i].size() == 1 && f[i][0].second == 1; MC_CHECK(q[i] == (pr ? 1 : 0), "segmented_q[%lld, %lld) with %d primes says %d for %lld", b, e, m, q[i], x); MC_CHECK(ph[i] == want, "segmented_phi[%lld, %lld) with %d primes gives %lld for %lld, expected %lld", b, e, m, (ll)ph[i], x, want); MC_CHECK(mu[i] == mw, "segmented_mu[%lld, %lld) with %d primes gives %lld for %lld, expected %d", b, e, m, (ll)mu[i], x, mw); } }
}
static void segments_small() { int N = mc::tier(150, 300), b = mc::choose(N + 1); mc::state(b); for (int e = b; e <= N; e++) segment(b, e); }
static void segments_far() { static const ll c[] = {1000, 10000, 1000000, 1000000000, 1000000000000LL, 49, 121, 169, 289, 961, 10201, 994009, 1002001, 997LL * 997 * 997, 1LL << 31, 1LL << 32, 999983LL * 999983LL}; ll x = c[mc::choose(17)]; int d = mc::choose(7); ll b = std::max<ll>(0, x - d * 3); mc::state(mc::H()(x)(d)); for (int l : {0, 1, 2, 3, 5, 9, 10, 19, 40}) segment(b, b + l); }
template<class D> static void divs(const Ref& r, int n) {
    std::vector<D> all; for (int d = 1; d <= n; d++) if (n % d == 0) all.push_back((D)d); MC_CHECK((divisors<D, int>(r.f) == all), "divisors of %d", n); for (D mx : {(D)1, (D)2, (D)3, (D)7, (D)(n / 2), (D)(n - 1), (D)n, (D)(n + 1)}) if (mx > 0) { std::vector<D> w; for (D d : all) if (d <= mx) w.push_back(d); auto g = divisors<D, int>(r.f, mx); MC_CHECK(g == w, "divisors of %d up to %lld are %s, expected %s", n, (ll)mx, mc::show(g).c_str(), mc::show(w).c_str()); }
    std::vector<D> s, w; squarefree_signed_divisors<D, int>(s, r.f); std::sort(s.begin(), s.end()); for (D d : all) if (ref((int)d)[(size_t)d].mu) w.push_back(d * ref((int)d)[(size_t)d].mu); std::sort(w.begin(), w.end()); MC_CHECK(s == w, "squarefree_signed_divisors of %d are %s, expected %s", n, mc::show(s).c_str(), mc::show(w).c_str());
}
static ll G(ll a, ll b) { return b ? G(b, a % b) : a; }
static void derived() {
    int N = mc::tier(3000, 20000), n = 1 + mc::choose(N); const Ref& r = ref(N)[n]; mc::op(); mc::state(n); static std::vector<int> bpf; if (bpf.empty()) for (int i = 0; i <= N; i++) bpf.push_back(ref(N)[i].bpf);
    F f; factor_integer(f, n, bpf.data()); F s = f; std::sort(s.begin(), s.end()); MC_CHECK(s == r.f, "factor_integer(%d)", n); std::map<int, int> mf; factor_integer_to_map(mf, n, bpf.data()); MC_CHECK(F(mf.begin(), mf.end()) == r.f, "factor_integer_to_map(%d)", n); factor_integer_to_map(mf, n, bpf.data()); for (auto& x : r.f) MC_CHECK(mf[x.first] == 2 * x.second, "factor_integer_to_map does not accumulate");
    for (auto g : {r.f, f}) { MC_CHECK(divisor_sigma0(g) == r.s0 && euler_phi(g) == r.phi, "divisor_sigma0/euler_phi from the factorization of %d", n); MC_CHECK((euler_phi<int, int64_t>(g)) == r.phi && (divisor_sigma0<int, int64_t>(g)) == r.s0, "64-bit euler_phi/divisor_sigma0 of %d", n); } std::vector<int> pf, pe; for (auto& x : r.f) { pf.push_back(x.first); pe.push_back(x.second); } MC_CHECK(prime_factors(r.f) == pf && prime_exponents(r.f) == pe, "prime_factors/prime_exponents of %d", n);
    if (n <= 700) { ll l = 1; for (int a = 1; a <= n; a++) if (G(a, n) == 1) { ll k = 1, x = a % n; while (x != 1 % n) { x = x * a % n; k++; } l = l / G(l, k) * k; } MC_CHECK(carmichael_lambda(r.f) == l, "carmichael_lambda(%d) is %d, expected %lld", n, carmichael_lambda(r.f), l); MC_CHECK((carmichael_lambda<int, int64_t>(r.f)) == l, "carmichael_lambda 64"); }
    divs<int>(r, n); divs<int64_t>(r, n);
    for (int b = 2; b <= 36; b++) for (int len : {0, 1, 3, 20}) { std::vector<int> d; for (int t = n; t; t /= b) d.push_back(t % b); while ((int)d.size() < len) d.push_back(0); auto g = integer_digits(n, b, len); MC_CHECK(g == d, "digits of %d in base %d (len %d)", n, b, len); MC_CHECK((from_digits<int, int>(g, b)) == n && (from_digits<int64_t, int>(g, b)) == n, "from_digits(digits of %d in base %d)", n, b); if (len != 20) { std::string w; for (int i = (int)d.size() - 1; i >= 0; i--) w += (char)(d[i] < 10 ? '0' + d[i] : 'a' + d[i] - 10); MC_CHECK(integer_string(n, b, len) == w && integer_string(d) == w, "integer_string(%d, %d, %d) is %s", n, b, len, integer_string(n, b, len).c_str()); } int64_t big = n * 1000000007LL; if (len == 0) { auto gb = integer_digits(big, (int64_t)b); MC_CHECK((from_digits<int64_t, int64_t>(gb, (int64_t)b)) == big, "64-bit digits"); } }
}
static void lists() { int k = mc::choose(4); std::vector<int> v; ll prod = 1; for (int i = 0; i < k; i++) { v.push_back(1 + mc::choose(14)); prod *= v.back(); } mc::op(); mc::state(mc::H().str(mc::show(v))); std::vector<int> bpf; for (int i = 0; i <= 14; i++) bpf.push_back(ref(20)[i].bpf); F f; factor_integer(f, v, bpf.data()); std::sort(f.begin(), f.end()); F w; for (auto& x : fac(prod)) w.push_back({(int)x.first, x.second}); MC_CHECK(f == w, "factor_integer of the product of %s", mc::show(v).c_str()); prime_holder h(15); MC_CHECK(h.factor_integer(v) == w, "prime_holder::factor_integer of the product of %s", mc::show(v).c_str()); std::vector<int> d; for (int i = 1; i <= prod; i++) if (prod % i == 0) d.push_back(i); MC_CHECK(h.divisors(v) == d && h.divisors(h.factor_integer(v)) == d, "prime_holder::divisors of the product of %s", mc::show(v).c_str()); }
static void request(prime_holder& h, int kind, int n) {
    const auto& R = ref(n); mc::op(); int m = n ? R[n - 1].pi : 0;
    #define H_(vec, field, w) { auto& v = vec; MC_CHECK((int)v.size() == n, w " has size %d of %d", (int)v.size(), n); for (int i = 0; i < n; i++) MC_CHECK(v[i] == R[i].field, w " of %d in a holder of size %d is %d", i, n, (int)v[i]); }
    if (kind == 0) { MC_CHECK(h.primes() == m && h.size() == n, "holder of size %d has %d primes, expected %d", n, h.primes(), m); }
    else if (kind == 1) { auto& v = h.p(); int c = 0; MC_CHECK((int)v.size() == m, "holder of size %d keeps %d primes, expected %d", n, (int)v.size(), m); for (int i = 0; i < n; i++) if (R[i].prime) { MC_CHECK(v[c] == i && h.p(c) == i, "prime %d is %d", c, v[c]); c++; } }
    else if (kind == 2) { H_(h.q(), prime, "flag") } else if (kind == 3) { H_(h.pf(), bpf, "factor") } else if (kind == 4) { H_(h.pi(), pi, "prime_pi") } else if (kind == 5) { H_(h.phi(), phi, "phi") } else if (kind == 6) { H_(h.mu(), mu, "mu") } else if (kind == 7) { H_(h.nu(), nu, "nu") } else if (kind == 8) { H_(h.mertens(), mer, "mertens") }
    else if (kind == 9) { for (int i = 1; i < n; i += n > 500 ? n / 97 : 1) MC_CHECK(h.factor_integer(i) == R[i].f, "holder factors %d wrongly", i); }
    else if (kind == 10) { for (int i = 1; i < n; i += n > 500 ? n / 97 : 1) { auto d = h.divisors(i); MC_CHECK((ll)d.size() == R[i].s0 && std::is_sorted(d.begin(), d.end()), "divisors of %d", i); ll s = 0; for (int x : d) { s += x; MC_CHECK(i % x == 0, "%d does not divide %d", x, i); } MC_CHECK(s == R[i].s1, "divisors of %d", i); auto e = h.divisors<int64_t>(i, 5); for (auto x : e) MC_CHECK(x <= 5, "divisor above the bound"); } }
    else { for (int i : {0, 1, 2, n / 2, n - 1}) if (i >= 0 && i < n) MC_CHECK(h.q(i) == R[i].prime && h.pf(i) == R[i].bpf && h.pi(i) == R[i].pi && h.phi(i) == R[i].phi && h.mu(i) == R[i].mu && h.nu(i) == R[i].nu && h.mertens(i) == R[i].mer, "single values at %d of a holder of size %d", i, n); }
}
static void holder() { static const int big[] = {16, 30, 39, 40, 41, 50, 97, 100, 128, 211, 1000}; int s = mc::choose(24), n = s < 13 ? s : big[s - 13]; int depth = n > 200 ? 2 : mc::tier(3, 4); prime_holder h(n); uint64_t st = n; std::string log; for (int i = 0; i < depth; i++) { int k = mc::choose(12); log += std::to_string(k) + " "; request(h, k, n); st = mc::H()(st)(k); } mc::state(st); mc::trace("holder of size %d, requests %s", n, log.c_str()); }
static void holder_big() { int n = 40 + mc::choose(mc::tier(1200, 6000)); if (n > 1000) n = 1000 + (n - 1000) * 37; mc::state(n); prime_holder h(n); for (int k : {1, 4}) request(h, k, n); }
static void fact_holder() { int n = 1 + mc::choose(150); mc::op(); mc::state(n); typedef modulo<int, 1009, modulo_storage::CONSTANT> M; factorial_holder<M> h(n); MC_CHECK(h.size() == n && (int)h.fact().size() == n && (int)h.ifact().size() == n && (int)h.inv().size() == n, "sizes"); ll f = 1; std::vector<std::vector<int>> C(n, std::vector<int>(n + 2)); for (int i = 0; i < n; i++) { if (i) f = f * i % 1009; MC_CHECK(h.fact(i).v == f && (h.fact(i) * h.ifact(i)).v == 1, "factorial %d of a holder of size %d is %d (inverse %d)", i, n, h.fact(i).v, h.ifact(i).v); MC_CHECK(i ? (h.inv(i) * M(i)).v == 1 : h.inv(i).v == 0, "inverse of %d is %d", i, h.inv(i).v); C[i][0] = 1; for (int j = 1; j <= i; j++) C[i][j] = (C[i - 1][j - 1] + C[i - 1][j]) % 1009; for (int j = 0; j <= i + 1; j++) MC_CHECK(h.bin(i, j).v == C[i][j], "binomial (%d, %d) is %d, expected %d", i, j, h.bin(i, j).v, C[i][j]); } { moduloX<int> id(1, 1009); factorial_holder<moduloX<int>> g(n, id); for (int i = 0; i < n; i++) MC_CHECK(g.fact(i).v == h.fact(i).v && g.ifact(i).v == h.ifact(i).v && g.inv(i).v == h.inv(i).v && g.fact(i).M() == 1009, "run-time modulus"); } if (n <= 15) { factorial_holder<double> d(n); double x = 1; for (int i = 0; i < n; i++) { if (i) x *= i; MC_CHECK(fabs(d.fact(i) - x) < 1e-6 * x && fabs(d.ifact(i) * x - 1) < 1e-12 && (i == 0 || fabs(d.inv(i) * i - 1) < 1e-12), "double factorial %d", i); } } }
MC_SETUP(all) { mc::add("bound", [] { sieve_bound(mc::choose(mc::tier(501, 2501))); }, 8); mc::add("bound_big", [] { static const int b[] = {4096, 5040, 10000, 10201, 32761, 32768, 44521, 46341, 65536, 65537, 99999, 100000}; sieve_bound(b[mc::choose(12)]); }, 4); mc::add("segments_small", segments_small, 16); mc::add("segments_far", segments_far, 16); mc::add("derived", derived, 16); mc::add("lists", lists, 4); mc::add("holder", holder, 16); mc::add("holder_big", holder_big, 8); mc::add("fact_holder", fact_holder, 4); }
