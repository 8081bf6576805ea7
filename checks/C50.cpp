// C50 range builders, reductions and closed-form sequences: every length, parameter and small table inside guarded buffers, compared with the definition.
// MC_BOUNDS: tables of length 0..40 (thorough 80) in every builder, for a prime field with a run-time modulus (17, 1000000007), a compile-time modulus, integers, fractions and doubles; every known factorial k! for k up to 3 beyond the table; every table of length up to 5 (thorough 6) over 6 values; every multiset of length up to 5 (thorough 6) for the reductions; every argument up to 300 (thorough 1500) for the sequences
// MC_ASSUME: tables of factorials and inverses stay below the modulus; figurate sequences modulo numbers coprime to 6; mex is asked of sorted containers
// MC_FLAGS: -O1
#include "mc.h"
#include <utility>
#include <stdint.h>
#include <limits>
#include <set>
#include <vector>
#include <algorithm>
#include "altruct/algorithm/math/ranges.h"
#include "altruct/algorithm/math/reduce.h"
#include "altruct/algorithm/math/sequences.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/factorial_holder.h"
namespace am = altruct::math; typedef int64_t i64; typedef am::moduloX<int> X; typedef am::modulo<int, 1000000007> M; typedef am::fraction<i64> Q;
// what a number is, in a form that can be compared without the code under test
static bool same(const X& a, const X& b) { return a.v == b.v && a.M() == b.M(); } static bool same(const M& a, const M& b) { return a.v == b.v; } static bool same(const Q& a, const Q& b) { return a.p * b.q == b.p * a.q && a.q > 0; } static bool same(i64 a, i64 b) { return a == b; } static bool same(double a, double b) { return a == b; }
template<class T> struct Kit; // of(i): the integer i; junk: a value no builder produces
static int MODX = 17;
template<> struct Kit<X> { static X of(i64 i) { i64 m = MODX; return X((int)((i % m + m) % m), (int)m); } static X inv(i64 i) { i64 m = MODX, a = (i % m + m) % m, r = 1; for (i64 e = m - 2; e; e >>= 1, a = a * a % m) if (e & 1) r = r * a % m; return X((int)r, (int)m); } static X junk() { return X(5, 23); } static int limit() { return MODX == 17 ? 17 : 1000; } };
template<> struct Kit<M> { static M of(i64 i) { i64 m = 1000000007; return M((int)((i % m + m) % m)); } static M inv(i64 i) { i64 m = 1000000007, a = (i % m + m) % m, r = 1; for (i64 e = m - 2; e; e >>= 1, a = a * a % m) if (e & 1) r = r * a % m; return M((int)r); } static M junk() { return M(123456789); } static int limit() { return 1000; } };
template<> struct Kit<Q> { static Q of(i64 i) { return Q(i); } static Q inv(i64 i) { return i < 0 ? Q(-1, -i) : Q(1, i); } static Q junk() { return Q(777777, 7); } static int limit() { return 12; } };
template<> struct Kit<i64> { static i64 of(i64 i) { return i; } static i64 junk() { return -987654321; } static int limit() { return 16; } };
template<> struct Kit<double> { static double of(i64 i) { return (double)i; } static double junk() { return 0.12345; } static int limit() { return 16; } };
template<class T> static T fact(int k) { T r = Kit<T>::of(1); for (int i = 2; i <= k; i++) r = r * Kit<T>::of(i); return r; }
static const int PAD = 3;
// a table with guards on both sides
template<class T> struct Buf {
    std::vector<T> b; int n; Buf(int n) : b(n + 2 * PAD, Kit<T>::junk()), n(n) {} Buf(const std::vector<T>& v) : b(v.size() + 2 * PAD, Kit<T>::junk()), n((int)v.size()) { for (int i = 0; i < n; i++) b[PAD + i] = v[i]; }
    typename std::vector<T>::iterator begin() { return b.begin() + PAD; } typename std::vector<T>::iterator end() { return b.begin() + PAD + n; } T* p() { return b.data() + PAD; }
    void __attribute__((noinline)) expect(const std::vector<T>& w, const char* what) { mc::op(); for (int i = 0; i < PAD; i++) MC_CHECK(same(b[i], Kit<T>::junk()) && same(b[PAD + n + i], Kit<T>::junk()), "%s of length %d wrote outside the range", what, n); MC_CHECK((int)w.size() == n, "%s: harness", what); for (int i = 0; i < n; i++) MC_CHECK(same(b[PAD + i], w[i]), "%s of length %d: element %d", what, n, i); }
};
template<class T> static void __attribute__((noinline)) vec(const std::vector<T>& g, const std::vector<T>& w, const char* what) { MC_CHECK(g.size() == w.size(), "%s has length %zu, wanted %zu", what, g.size(), w.size()); for (size_t i = 0; i < g.size(); i++) MC_CHECK(same(g[i], w[i]), "%s of length %zu: element %zu", what, w.size(), i); }
template<class T, class F> static std::vector<T> table(int n, F f) { std::vector<T> r; for (int i = 0; i < n; i++) r.push_back(f(i)); return r; }
template<class T> static T ipow(T b, int e) { T r = Kit<T>::of(1); while (e--) r = r * b; return r; }

template<class T> static void ring_builders(bool def) {
    typedef Kit<T> K; int n = mc::choose(mc::tier(41, 81)); mc::state(mc::hash(n)); int nl = std::min(n, K::limit()); const T id = K::of(1);
    for (int s = -3; s <= 5; s++) { T st = K::of(s); auto w = table<T>(n, [&](int i) { return K::of((i64)i * s); }); Buf<T> b(n); am::range(b.begin(), b.end(), st); b.expect(w, "range"); vec(am::range((size_t)n, st), w, "range"); Buf<T> c(n); am::range(c.p(), c.p() + n, st); c.expect(w, "range over pointers");
        if (n <= 20 && n <= K::limit()) { auto wp = table<T>(n, [&](int i) { return ipow(st, i); }); Buf<T> d(n); am::powers(d.begin(), d.end(), st); d.expect(wp, "powers"); vec(am::powers((size_t)n, st), wp, "powers"); } }
    auto wf = table<T>(nl, [&](int i) { return fact<T>(i); }); Buf<T> f(nl); am::factorials(f.begin(), f.end(), id); f.expect(wf, "factorials"); vec(am::make_factorials((size_t)nl, id), wf, "factorials");
    if (def) { auto w = table<T>(n, [&](int i) { return K::of(i); }); Buf<T> b(n); am::range(b.begin(), b.end()); b.expect(w, "range by default"); vec(am::range<T>((size_t)n), w, "range by default"); Buf<T> g(nl); am::factorials(g.begin(), g.end()); g.expect(wf, "factorials by default"); vec(am::make_factorials<T>((size_t)nl), wf, "factorials by default"); }
}
template<class T> static void field_builders(bool def) {
    typedef Kit<T> K; int n = mc::choose(std::min(mc::tier(41, 81), K::limit() + 1)), k0 = mc::choose(n + 4); if (k0 >= K::limit()) mc::cut(); mc::state(mc::hash(n, k0)); const T id = K::of(1);
    auto wi = table<T>(n, [&](int i) { T r = K::of(1); for (int j = 2; j <= i; j++) r = r * K::inv(j); return r; });
    T fk = fact<T>(k0); { Buf<T> b(n); am::inv_factorials(b.begin(), b.end(), fk, (size_t)k0); b.expect(wi, "inverse factorials from k!"); vec(am::make_inv_factorials((size_t)n, fk, (size_t)k0), wi, "inverse factorials from k!"); }
    if (k0) return;
    { Buf<T> b(n); am::inv_factorials(b.begin(), b.end(), id); b.expect(wi, "inverse factorials"); vec(am::make_inv_factorials((size_t)n, id), wi, "inverse factorials"); }
    auto wv = table<T>(n, [&](int i) { return i ? K::inv(i) : K::of(0); }); { Buf<T> b(n); am::inverses(b.begin(), b.end(), id); b.expect(wv, "inverses"); vec(am::make_inverses((size_t)n, id), wv, "inverses"); Buf<T> c(wi); am::inverses_from_ifact(c.begin(), c.end(), id); c.expect(wv, "inverses from inverse factorials"); }
    { Buf<T> b(table<T>(n, [&](int i) { return K::of(i); })); am::invert(b.begin(), b.end(), id); b.expect(wv, "invert"); }
    if (n) { Buf<T> b(table<T>(n - 1, [&](int i) { return K::of(i + 1); })); am::invert_field(b.begin(), b.end(), id); b.expect(std::vector<T>(wv.begin() + 1, wv.end()), "invert_field"); }
    if (def) { Buf<T> b(n); am::inv_factorials(b.begin(), b.end()); b.expect(wi, "inverse factorials by default"); vec(am::make_inv_factorials<T>((size_t)n), wi, "inverse factorials by default"); vec(am::make_inverses<T>((size_t)n), wv, "inverses by default"); }
    { am::factorial_holder<T> h(n, id); MC_CHECK(h.size() == n, "holder size"); vec(h.ifact(), wi, "holder ifact"); vec(h.inv(), wv, "holder inv"); auto wf = table<T>(n, [&](int i) { return fact<T>(i); }); vec(h.fact(), wf, "holder fact"); const am::factorial_holder<T>& c = h; std::vector<std::vector<i64>> P(n + 1, std::vector<i64>(n + 1, 0)); for (int i = 0; i < n; i++) { MC_CHECK(same(c.fact(i), wf[i]) && same(c.ifact(i), wi[i]) && same(c.inv(i), wv[i]), "holder element %d", i); for (int j = 0; j <= i && i <= 60; j++) { P[i][j] = j == 0 || j == i ? 1 : P[i - 1][j - 1] + P[i - 1][j]; MC_CHECK(same(c.bin(i, j), K::of(P[i][j])), "binomial %d over %d from the holder of %d", i, j, n); } MC_CHECK(same(c.bin(i, i + 1), K::of(0)), "binomial %d over %d", i, i + 1); } }
}
// every small table
template<class T> static void transforms(bool field) {
    typedef Kit<T> K; static const int val[] = {0, 1, 2, -1, 3, 5}; int n = mc::choose(mc::tier(6, 7)); std::vector<int> a(n); mc::H h; for (int& x : a) { x = val[mc::choose(6)]; h(x); } mc::state(h.h); const T id = K::of(1);
    auto src = table<T>(n, [&](int i) { return K::of(a[i]); }); auto pre = [&](int i) { int s = 0; for (int j = 0; j <= i; j++) s += a[j]; return s; };
    { Buf<T> b(src); am::negate(b.begin(), b.end()); b.expect(table<T>(n, [&](int i) { return K::of(-a[i]); }), "negate"); } { Buf<T> b(src); am::alternate(b.begin(), b.end()); b.expect(table<T>(n, [&](int i) { return K::of(i % 2 ? -a[i] : a[i]); }), "alternate"); }
    { Buf<T> b(src); am::accumulate(b.begin(), b.end()); b.expect(table<T>(n, [&](int i) { return K::of(pre(i)); }), "accumulate"); am::differentiate(b.begin(), b.end()); b.expect(src, "differentiate after accumulate"); } { Buf<T> b(src); am::differentiate(b.begin(), b.end()); b.expect(table<T>(n, [&](int i) { return K::of(a[i] - (i ? a[i - 1] : 0)); }), "differentiate"); }
    { Buf<T> b(src); am::differentiate(b.p(), b.p() + n); am::accumulate(b.p(), b.p() + n); b.expect(src, "accumulate after differentiate"); }
    for (int e = 0; e <= 6; e++) { Buf<T> b(src); am::power(b.begin(), b.end(), e); b.expect(table<T>(n, [&](int i) { return ipow(src[i], e); }), "power"); if (e < 3) { Buf<T> c(src); am::power(c.begin(), c.end(), (i64)e + 7); c.expect(table<T>(n, [&](int i) { return ipow(src[i], e + 7); }), "power"); } }
}
template<class T> static void inversions() {
    typedef Kit<T> K; static const int val[] = {0, 1, 2, -1, 3, 5}; int n = mc::choose(mc::tier(6, 7)); std::vector<int> a(n); mc::H h; bool zero = false; for (int& x : a) { x = val[mc::choose(6)]; h(x); zero |= !x; } mc::state(h.h); const T id = K::of(1); auto src = table<T>(n, [&](int i) { return K::of(a[i]); }); auto w = table<T>(n, [&](int i) { return a[i] ? K::inv(a[i]) : K::of(0); });
    { Buf<T> b(src); am::invert(b.begin(), b.end(), id); b.expect(w, "invert"); } if (!zero) { Buf<T> b(src); am::invert_field(b.begin(), b.end(), id); b.expect(w, "invert_field"); Buf<T> c(src); am::invert_field(c.p(), c.p() + n, id); c.expect(w, "invert_field over pointers"); }
}
#define BOTH(NAME, CALL) static void NAME##_x17() { MODX = 17; CALL(X); } static void NAME##_xp() { MODX = 1000000007; CALL(X); }
#define RB(T) ring_builders<T>(false)
#define FB(T) field_builders<T>(false)
#define TR(T) transforms<T>(false)
#define IN(T) inversions<T>()
BOTH(ring, RB) BOTH(field, FB) BOTH(small, TR) BOTH(inverted, IN)
static void ring_mod() { ring_builders<M>(true); } static void ring_int() { ring_builders<i64>(true); } static void ring_frac() { ring_builders<Q>(true); } static void ring_double() { ring_builders<double>(true); } static void field_mod() { field_builders<M>(true); } static void field_frac() { field_builders<Q>(true); }
static void small_mod() { transforms<M>(false); } static void small_int() { transforms<i64>(false); } static void small_frac() { transforms<Q>(false); } static void small_double() { transforms<double>(false); } static void inverted_mod() { inversions<M>(); } static void inverted_frac() { inversions<Q>(); }
// reductions: vectors and sets of several element types, with and without a starting value
template<class T> static void reductions(const std::vector<T>& val) {
    int n = mc::choose(mc::tier(6, 7)); std::vector<T> a(n); mc::H h; for (T& x : a) { int i = mc::choose((int)val.size()); x = val[i]; h(i); } mc::state(h.h); mc::op();
    T s = 0, p = 1; for (T x : a) s = s + x, p = p * x; MC_CHECK(am::reduce_sum(a) == s, "sum"); MC_CHECK(am::reduce_product(a) == p, "product"); MC_CHECK(am::reduce_sum(a, (T)7) == (T)(s + 7), "sum from 7"); MC_CHECK(am::reduce_product(a, (T)2) == (T)(p * 2), "product from 2");
    MC_CHECK(am::reduce(a, [](T x, T y) { return (T)(x * 3 + y); }, (T)1) == ([&] { T r = 1; for (T x : a) r = (T)(r * 3 + x); return r; })(), "reduce is a left fold");
    if (n) { MC_CHECK(am::reduce_min(a) == *std::min_element(a.begin(), a.end()), "min"); MC_CHECK(am::reduce_max(a) == *std::max_element(a.begin(), a.end()), "max"); } for (T id : val) { MC_CHECK(am::reduce_min(a, id) == (n ? std::min(id, *std::min_element(a.begin(), a.end())) : id), "min with a start"); MC_CHECK(am::reduce_max(a, id) == (n ? std::max(id, *std::max_element(a.begin(), a.end())) : id), "max with a start"); }
    std::set<T> u(a.begin(), a.end()); T su = 0; for (T x : u) su = su + x; MC_CHECK(am::reduce_sum(u) == su, "sum of a set"); if (n) MC_CHECK(am::reduce_min(u) == *u.begin() && am::reduce_max(u) == *u.rbegin(), "min and max of a set");
}
static void red_int() { reductions<int>({0, 1, 2, -1, 5, -2147483647}); } static void red_i64() { reductions<i64>({0, 1, -3, 4}); } static void red_unsigned() { reductions<unsigned>({0u, 1u, 2u, 4294967295u}); } static void red_byte() { reductions<uint8_t>({0, 1, 7, 255}); } static void red_double() { reductions<double>({0, 1, -2.5, 1e9}); }
static void red_infinite() { double inf = std::numeric_limits<double>::infinity(); static const double val[] = {inf, -inf, 0, 1e308}; int n = 1 + mc::choose(4); std::vector<double> a(n); mc::H h; for (double& x : a) { int i = mc::choose(4); h(i); x = val[i]; } mc::state(h.h); mc::op(); MC_CHECK(am::reduce_min(a) == *std::min_element(a.begin(), a.end()), "min with infinities"); MC_CHECK(am::reduce_max(a) == *std::max_element(a.begin(), a.end()), "max with infinities"); }
static void mex() { int n = mc::choose(mc::tier(7, 8)), id = mc::choose(3) - 1; std::vector<int> a(n); mc::H h; h(id); int lo = -1; for (int& x : a) { x = lo + mc::choose(6 - lo); lo = x; h(x); } mc::state(h.h); mc::op(); auto want = [&](int s) { while (std::find(a.begin(), a.end(), s) != a.end()) s++; return s; }; MC_CHECK(am::reduce_mex(a) == want(0), "mex of %s: %d, wanted %d", mc::show(a).c_str(), am::reduce_mex(a), want(0)); MC_CHECK(am::reduce_mex(a, id) == want(id), "mex of %s from %d", mc::show(a).c_str(), id); std::set<int> s(a.begin(), a.end()); MC_CHECK(am::reduce_mex(s) == want(0), "mex of a set"); }
// sequences against direct summation
template<class R, class I, class C> static void seq_at(I n, C conv) {
    typedef __int128 L; L N = (L)n; namespace sq = am::sequences; mc::op();
#define SQ(name, value) do { R g = sq::name<R, I>(n); MC_CHECK(conv(g, (L)(value)), "%s(%lld)", #name, (long long)n); } while (0)
    SQ(delta, N == 0); SQ(dirichlet_id, N == 1); SQ(zero, 0); SQ(one, 1); SQ(identity, N); SQ(square, N * N); SQ(cube, N * N * N);
    L tri = 0, tet = 0, pyr = 0; for (L k = 1; k <= N; k++) tri += k, tet += tri, pyr += k * k; SQ(triangular, tri); SQ(tetrahedral, tet); SQ(pyramidal, pyr); SQ(octahedral, N ? pyr + (pyr - N * N) : 0);
    SQ(dodecahedral, N * (3 * N - 1) * (3 * N - 2) / 2); SQ(icosahedral, N * (5 * N * N - 5 * N + 2) / 2);
}
template<class R, class I, class C> static void sig_at(I n, C conv) { typedef __int128 L; L s0 = 0, s1 = 0, s2 = 0; for (L d = 1; d <= (L)n; d++) { L c = (L)n / d; s0 += c; s1 += c * d; s2 += c * d * d; } namespace sq = am::sequences; mc::op(); SQ(sum_sigma0, s0); SQ(sum_sigma1, s1); SQ(sum_sigma2, s2); }
static void sequences() { int n = mc::choose(mc::tier(301, 1501)); mc::state(mc::hash(n)); typedef __int128 L; auto ci = [](i64 g, L w) { return (L)g == w; }; auto cd = [](double g, L w) { return g == (double)(i64)w; }; auto cm = [](M g, L w) { return (L)g.v == w % 1000000007; }; typedef am::modulo<int, 107> S; auto cs = [](S g, L w) { return (L)g.v == w % 107; }; auto cq = [](Q g, L w) { return (L)g.p == w && g.q == 1; }; auto cu = [](unsigned g, L w) { return (L)g == w; };
    seq_at<i64, i64>(n, ci); seq_at<i64, int>(n, ci); seq_at<double, i64>(n, cd); seq_at<M, i64>(n, cm); seq_at<M, int>(n, cm); seq_at<S, i64>(n, cs); seq_at<Q, i64>(n, cq); if (n < 300) seq_at<unsigned, unsigned>(n, cu); sig_at<i64, i64>(n, ci); sig_at<i64, int>(n, ci); sig_at<M, i64>(n, cm); sig_at<S, i64>(n, cs); sig_at<double, i64>(n, cd);
}
static void large_sequences() { int i = mc::choose(40), d = mc::choose(3) - 1; mc::state(mc::hash(i, d)); i64 n = ((i64)1 << (i % 20)) * (i < 20 ? 1 : 3) + d; if (n < 0) n = 0; if (n > 300000) n = 300000 + d; typedef __int128 L; auto cm = [](M g, L w) { return (L)g.v == w % 1000000007; }; seq_at<M, i64>(n, cm); sig_at<M, i64>(n, cm); }
MC_SETUP(setup) {
    mc::add("ring_x17", ring_x17); mc::add("ring_xp", ring_xp); mc::add("ring_mod", ring_mod); mc::add("ring_int", ring_int); mc::add("ring_frac", ring_frac); mc::add("ring_double", ring_double); mc::add("field_x17", field_x17); mc::add("field_xp", field_xp); mc::add("field_mod", field_mod); mc::add("field_frac", field_frac);
    mc::add("small_x17", small_x17, 2); mc::add("small_xp", small_xp, 2); mc::add("small_mod", small_mod, 2); mc::add("small_int", small_int); mc::add("small_frac", small_frac, 2); mc::add("small_double", small_double); mc::add("inverted_x17", inverted_x17); mc::add("inverted_xp", inverted_xp); mc::add("inverted_mod", inverted_mod); mc::add("inverted_frac", inverted_frac);
    mc::add("red_int", red_int, 2); mc::add("red_i64", red_i64); mc::add("red_unsigned", red_unsigned); mc::add("red_byte", red_byte); mc::add("red_double", red_double); mc::add("red_infinite", red_infinite); mc::add("mex", mex, 2); mc::add("sequences", sequences, 4); mc::add("large_sequences", large_sequences, 4);
}
