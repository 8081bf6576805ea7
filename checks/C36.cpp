// C36 combinatorial enumeration and counting: every object visited once and in order; every count against explicit enumeration and against the quadratic defining recurrences.
// MC_BOUNDS: next_combination on sequences of up to 14/17 distinct elements, every selection size, and from every reachable state; next_partition for every total up to 24/35 in ranges of every length up to 12 (int, 64-bit, unsigned); nth_permutation for every n up to 8/9 elements and every index (plus indices beyond n! and all factorial boundaries for up to 25 elements, 32/64 bit); Stirling numbers by explicit enumeration of permutations / set partitions up to n = 9, every table size and column up to 24/40, columns and rows up to 300 against the triangular recurrences, two prime moduli; partition counts (all, distinct, distinct odd) for every table size up to 200/500 against explicit enumeration (up to 30) and the knapsack recurrence
// MC_ASSUME: column/row Stirling functions and factorial are used over a field whose characteristic exceeds n; nth_permutation starts from a sorted range; next_combination: the elements are distinct
#include "mc.h"
#include <stdint.h>
#include <limits.h>
#include <string.h>
#include <vector>
#include <deque>
#include <set>
#include <string>
#include <numeric>
#include <algorithm>
#include <iterator>
#include "altruct/algorithm/math/combinatorics.h"
#include "altruct/algorithm/math/counting.h"
#include "altruct/structure/math/modulo.h"
namespace am = altruct::math; typedef long long ll; typedef std::vector<int> V;
static void comb_of(const V& v, int k) {
    int n = (int)v.size(); std::set<V> want; for (int m = 0; m < 1 << n; m++) if (__builtin_popcount(m) == k) { V s; for (int i = 0; i < n; i++) if (m >> i & 1) s.push_back(v[i]); want.insert(s); }
    V a = v; std::deque<int> l(v.begin(), v.end()); auto lm = l.begin() + k; auto it = want.begin(); bool more = true; mc::trace("choose %d of %s", k, mc::show(v).c_str());
    for (; it != want.end(); ++it) { mc::op(); MC_CHECK(more, "only a part of the %zu combinations of %d of %s is visited", want.size(), k, mc::show(v).c_str()); V s(a.begin(), a.begin() + k), t(a.begin() + k, a.end()); MC_CHECK(s == *it, "combination of %d of %s: %s, expected %s", k, mc::show(v).c_str(), mc::show(s).c_str(), mc::show(*it).c_str()); MC_CHECK(std::is_sorted(t.begin(), t.end()), "the rest of a combination is not sorted"); V u = a; std::sort(u.begin(), u.end()); MC_CHECK(u == v, "elements were lost"); MC_CHECK(V(l.begin(), l.end()) == a, "deque and vector differ"); more = am::next_combination(a.begin(), a.begin() + k, a.end()); MC_CHECK(am::next_combination(l.begin(), lm, l.end()) == more, "deque and vector differ"); }
    MC_CHECK(!more && a == v, "after the last combination of %d of %s: %s %d", k, mc::show(v).c_str(), mc::show(a).c_str(), more);
}
static void combinations() { int n = mc::choose(mc::tier(15, 18)); V v; int kind = mc::choose(2); for (int i = 0; i < n; i++) v.push_back(kind ? i * i - 5 : i); int k = mc::choose(n + 1); mc::state(mc::H().range(v)(k)); comb_of(v, k); }
template<class T> static void parts(int n, int m) {
    std::vector<V> want; V cur; std::function<void(int, int)> rec = [&](int r, int mx) { if (r == 0) { V w = cur; w.resize(m); want.push_back(w); return; } if ((int)cur.size() == m) return; for (int x = std::min(r, mx); x >= 1; x--) { cur.push_back(x); rec(r - x, x); cur.pop_back(); } }; rec(n, n);
    std::vector<T> v(m); if (m) v[0] = n; bool more = true; for (auto& w : want) { mc::op(); MC_CHECK(more, "only a part of the %zu partitions of %d into up to %d parts is visited", want.size(), n, m); MC_CHECK(V(v.begin(), v.end()) == w, "partition of %d into up to %d parts is %s, expected %s", n, m, mc::show(v).c_str(), mc::show(w).c_str()); more = am::next_partition(v.begin(), v.end()); }
    MC_CHECK(!more && (m == 0 || V(v.begin(), v.end()) == want[0]), "after the last partition of %d into %d parts: %s", n, m, mc::show(v).c_str());
}
static void partitions() { int n = mc::choose(mc::tier(25, 36)), m = mc::choose(13); if (m == 0 && n) return; mc::state(mc::H()(n)(m)); parts<int>(n, m); parts<int64_t>(n, m); parts<unsigned>(n, m); parts<size_t>(n, m); }
static void permutations() {
    int n = mc::choose(mc::tier(9, 10)); mc::state(n); V v(n), p; for (int i = 0; i < n; i++) v[i] = i * 2; p = v; ll f = 1; for (int i = 2; i <= n; i++) f *= i;
    for (ll o = 0; o < 3 * f + 2; o++) { mc::op(); V a = v; if (o < f || o % 3 == 0) { am::nth_permutation(a.begin(), a.end(), (int)o); MC_CHECK(a == p, "permutation %lld of %d elements is %s, expected %s", o, n, mc::show(a).c_str(), mc::show(p).c_str()); } if (n < 6) { a = v; am::nth_permutation(a.begin(), a.end(), (int64_t)o); MC_CHECK(a == p, "permutation %lld of %d elements (64 bit)", o, n); a = v; am::nth_permutation(a.begin(), a.end(), (unsigned)o); MC_CHECK(a == p, "permutation %lld of %d elements (unsigned)", o, n); } std::next_permutation(p.begin(), p.end()); }
}
template<class I> static void nth_one(int n, I o) { V v(n), p; std::iota(v.begin(), v.end(), 0); __uint128_t f = 1; std::vector<__uint128_t> F{1}; for (int i = 1; i <= n; i++) F.push_back(f *= i); __uint128_t r = (__uint128_t)o % f; V pool = v; for (int i = n - 1; i >= 0; i--) { int k = (int)(r / F[i]); r %= F[i]; p.push_back(pool[k]); pool.erase(pool.begin() + k); } mc::op(); am::nth_permutation(v.begin(), v.end(), o); MC_CHECK(v == p, "permutation %llu of %d elements is %s, expected %s", (unsigned long long)o, n, mc::show(v).c_str(), mc::show(p).c_str()); }
static void nth_large() { int n = mc::choose(26); mc::state(n); uint64_t f = 1; for (int i = 1; i <= 20; i++) { f *= i; for (int c : {1, 2, 3, i}) for (int d = -2; d <= 2; d++) { uint64_t o = f * c + d; if ((int64_t)o < 0) continue; nth_one<int64_t>(n, o); nth_one<uint64_t>(n, o); if (o <= INT_MAX) nth_one<int>(n, (int)o); if (o <= UINT_MAX) nth_one<unsigned>(n, (unsigned)o); } } for (int d = 0; d < 3; d++) { nth_one<int>(n, INT_MAX - d); nth_one<unsigned>(n, UINT_MAX - d); nth_one<int64_t>(n, INT64_MAX - d); nth_one<uint64_t>(n, UINT64_MAX - d); } }
// counting
static const int P1 = 1000000007, P2 = 10007;
static const std::vector<std::vector<ll>>& tab(int kind, ll P) { static std::vector<std::vector<ll>> t[4]; auto& v = t[kind * 2 + (P == P2)]; if (v.empty()) for (int n = 0; n <= 320; n++) { v.push_back(std::vector<ll>(n + 1)); for (int k = 0; k <= n; k++) v[n][k] = n == 0 ? 1 : ((k ? v[n - 1][k - 1] : 0) + (k < n ? v[n - 1][k] * (kind ? k : P - (n - 1)) : 0)) % P; } return v; }
static ll at(int kind, ll P, int n, int k) { return k < 0 || k > n ? 0 : tab(kind, P)[n][k]; }
static void enumerate() { // the recurrences against explicit enumeration
    int n = mc::choose(10); mc::state(n); std::vector<ll> c1(n + 1), c2(n + 1); V p(n); std::iota(p.begin(), p.end(), 0); do { int k = 0, m = 0; for (int i = 0; i < n; i++) if (!(m >> i & 1)) { k++; for (int j = i; !(m >> j & 1); j = p[j]) m |= 1 << j; } c1[k]++; mc::op(); } while (std::next_permutation(p.begin(), p.end()));
    std::function<void(int, int)> rec = [&](int i, int b) { if (i == n) { c2[b]++; mc::op(); return; } for (int x = 0; x <= b; x++) rec(i + 1, std::max(b, x + 1)); }; rec(0, 0); auto t1 = am::stirling_s1_all<int64_t>(n + 1, n + 1), t2 = am::stirling_s2_all<int64_t>(n + 1, n + 1);
    for (int k = 0; k <= n; k++) { ll s = (n - k) % 2 ? -c1[k] : c1[k]; MC_CHECK(t1[n][k] == s && t2[n][k] == c2[k], "Stirling numbers (%d, %d): %lld %lld, expected %lld %lld", n, k, (ll)t1[n][k], (ll)t2[n][k], s, c2[k]); MC_CHECK(at(0, P1, n, k) == (s + P1) % P1 && at(1, P1, n, k) == c2[k], "reference"); } MC_CHECK(am::factorial<int64_t>(n) == std::accumulate(c1.begin(), c1.end(), 0ll), "factorial(%d)", n);
}
template<class M> static void chk(const std::vector<M>& v, int sz, const char* w, int a, std::function<ll(int)> f) { MC_CHECK((int)v.size() == sz, "%s (%d): %d values, expected %d", w, a, (int)v.size(), sz); for (int i = 0; i < sz; i++) MC_CHECK(v[i].v == f(i), "%s (%d) of size %d: value %d is %lld, expected %lld", w, a, sz, i, (ll)v[i].v, f(i)); }
template<class M> static void stir(int n, int k, M id) { ll P = id.M(); mc::trace("Stirling n=%d k=%d mod %lld", n, k, P); mc::op();
    chk(am::stirling_s1_all_n_for_k(n, k, id), n, "stirling_s1_all_n_for_k", k, [&](int i) { return at(0, P, i, k); }); chk(am::stirling_s2_all_n_for_k(n, k, id), n, "stirling_s2_all_n_for_k", k, [&](int i) { return at(1, P, i, k); });
    auto a = am::stirling_s1_all(n, k, id), b = am::stirling_s2_all(n, k, id); MC_CHECK((int)a.size() == n && (int)b.size() == n, "table sizes"); for (int i = 0; i < n; i++) { chk(a[i], std::min(i + 1, k), "stirling_s1_all", i, [&](int j) { return at(0, P, i, j); }); chk(b[i], std::min(i + 1, k), "stirling_s2_all", i, [&](int j) { return at(1, P, i, j); }); }
    MC_CHECK(am::stirling_s1(n, k, id).v == at(0, P, n, k) && am::stirling_s2(n, k, id).v == at(1, P, n, k) && am::stirling_s2((int64_t)n, k, id).v == at(1, P, n, k), "stirling_s1/s2(%d, %d) mod %lld: %lld %lld", n, k, P, (ll)am::stirling_s1(n, k, id).v, (ll)am::stirling_s2(n, k, id).v); }
template<class M> static void rows(int n, M id) { ll P = id.M(); chk(am::stirling_s1_all_k_for_n(n, id), n + 1, "stirling_s1_all_k_for_n", n, [&](int j) { return at(0, P, n, j); }); chk(am::stirling_s2_all_k_for_n(n, id), n + 1, "stirling_s2_all_k_for_n", n, [&](int j) { return at(1, P, n, j); }); ll f = 1; for (int i = 2; i <= n; i++) f = f * i % P; MC_CHECK(am::factorial(n, id).v == f, "factorial(%d) mod %lld", n, P); }
typedef am::modulo<int, P1, am::modulo_storage::CONSTANT> M1; typedef am::moduloX<int> MX;
static void stirling() { int N = mc::tier(24, 40), n = mc::choose(N + 1), k = mc::choose(N + 3), m = mc::choose(2); mc::state(mc::H()(n)(k)(m)); if (m) stir(n, k, MX(1, P2)); else stir(n, k, M1(1)); if (k == 0) { if (m) rows(n, MX(1, P2)); else rows(n, M1(1)); }
    if (!m) { chk(am::stirling_s1_all_n_for_k<M1>(n, k), n, "stirling_s1_all_n_for_k", k, [&](int i) { return at(0, P1, i, k); }); chk(am::stirling_s2_all_n_for_k<M1>(n, k), n, "stirling_s2_all_n_for_k", k, [&](int i) { return at(1, P1, i, k); }); MC_CHECK(am::stirling_s1<M1>(n, k).v == at(0, P1, n, k) && am::stirling_s2<M1>(n, k).v == at(1, P1, n, k), "stirling_s1/s2(%d, %d) with the default identity", n, k); if (k == 0) { chk(am::stirling_s1_all_k_for_n<M1>(n), n + 1, "stirling_s1_all_k_for_n", n, [&](int j) { return at(0, P1, n, j); }); chk(am::stirling_s2_all_k_for_n<M1>(n), n + 1, "stirling_s2_all_k_for_n", n, [&](int j) { return at(1, P1, n, j); }); } } }
static void stirling_large() { static const int ns[] = {47, 48, 49, 50, 63, 64, 65, 96, 97, 98, 99, 100, 128, 129, 200, 300}, ks[] = {0, 1, 2, 3, 10, 46, 47, 48, 63, 64, 100, 198, 199, 200, 201, 290, 299, 300}; int n = ns[mc::choose(16)], k = ks[mc::choose(18)]; mc::state(mc::H()(n)(k)); M1 id(1); mc::op(); mc::trace("Stirling n=%d k=%d", n, k); chk(am::stirling_s1_all_n_for_k(n, k, id), n, "stirling_s1_all_n_for_k", k, [&](int i) { return at(0, P1, i, k); }); chk(am::stirling_s2_all_n_for_k(n, k, id), n, "stirling_s2_all_n_for_k", k, [&](int i) { return at(1, P1, i, k); }); MC_CHECK(am::stirling_s2(n, k, id).v == at(1, P1, n, k), "stirling_s2(%d, %d)", n, k); if (k == 0) rows(n, id); }
static void stirling_huge_n() { // S(n, k) for n far beyond tables, by the recurrence in n modulo p
    static const int64_t ns[] = {1000, 2018, 10000, 1234567}; int64_t n = ns[mc::choose(mc::tier(3, 4))]; int K = 30; mc::state(n); std::vector<ll> r(K + 1); r[0] = 1; for (int64_t i = 0; i < n; i++) { for (int k = K; k >= 1; k--) r[k] = (r[k - 1] + r[k] * k) % P1; r[0] = 0; } for (int k = 0; k <= K; k++) { mc::op(); MC_CHECK(am::stirling_s2(n, k, M1(1)).v == r[k], "stirling_s2(%lld, %d)", (ll)n, k); } }
static void pcount() {
    int n = mc::choose(mc::tier(201, 501)); mc::op(); mc::state(n); std::vector<ll> p(n), q(n), o(n), e(n); std::vector<ll> pi(n); if (n) p[0] = q[0] = o[0] = e[0] = pi[0] = 1; for (int k = 1; k < n; k++) { for (int i = k; i < n; i++) p[i] = (p[i] + p[i - k]) % P1, pi[i] += n <= 61 ? pi[i - k] : 0; for (int i = n - 1; i >= k; i--) { q[i] = (q[i] + q[i - k]) % P1; if (k % 2) o[i] = (o[i] + o[i - k]) % P1; e[i] = (e[i] - e[i - k] + P1) % P1; } }
    if (n == 31) { std::vector<ll> a(n), b(n), c(n); for (int t = 0; t < n; t++) { std::function<void(int, int, bool, bool)> rec = [&](int r, int mx, bool d, bool odd) { if (r == 0) { a[t]++; if (d) { b[t]++; if (odd) c[t]++; } return; } for (int x = std::min(r, mx); x >= 1; x--) { bool dd = d && !(x == mx && mx < r + mx && false); rec(r - x, x, dd, odd && x % 2); } }; rec(t, t, true, true); } for (int t = 0; t < n; t++) { MC_CHECK(a[t] == p[t], "reference"); } for (int t = 0; t < n; t++) { ll d = 0, od = 0; std::function<void(int, int, bool)> rec = [&](int r, int mx, bool odd) { if (r == 0) { d++; od += odd; return; } for (int x = std::min(r, mx); x >= 1; x--) rec(r - x, x - 1, odd && x % 2); }; rec(t, t, true); MC_CHECK(d == q[t] && od == o[t], "reference"); } }
    M1 id(1); chk(am::partitions_p_slow(n, id), n, "partitions_p_slow", 0, [&](int i) { return p[i]; }); chk(am::partitions_p_distinct_slow(n, id), n, "partitions_p_distinct_slow", 0, [&](int i) { return q[i]; }); chk(am::euler_function(n, id), n, "euler_function", 0, [&](int i) { return e[i]; });
    chk(am::partitions_p(n, id), n, "partitions_p", 0, [&](int i) { return p[i]; }); chk(am::partitions_p_distinct(n, id), n, "partitions_p_distinct", 0, [&](int i) { return q[i]; }); chk(am::partitions_p_distinct_odd(n, id), n, "partitions_p_distinct_odd", 0, [&](int i) { return o[i]; });
    if (n <= 61) { auto a = am::partitions_p<int64_t>(n), b = am::partitions_p_slow<int64_t>(n), c = am::partitions_p_distinct<int64_t>(n), d = am::partitions_p_distinct_odd<int64_t>(n), f = am::euler_function<int64_t>(n); for (int i = 0; i < n; i++) MC_CHECK(a[i] == pi[i] && b[i] == pi[i] && c[i] == q[i] && d[i] == o[i] && (f[i] + P1) % P1 == e[i], "64-bit partition numbers of %d (table of %d)", i, n); }
}
MC_SETUP(all) { mc::add("combinations", combinations, 16); mc::add("partitions", partitions, 8); mc::add("permutations", permutations, 4); mc::add("nth_large", nth_large, 4); mc::add("enumerate", enumerate, 2); mc::add("stirling", stirling, 8); mc::add("stirling_large", stirling_large, 16); mc::add("stirling_huge_n", stirling_huge_n, 4); mc::add("pcount", pcount, 8); }
