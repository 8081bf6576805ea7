// C38 convolutions and transforms: every pair of basis vectors at every length and every array aliasing, plus every small-valued sequence pair, against the quadratic definitions.
// MC_BOUNDS: bitwise/max/subset convolutions and transforms of length 2^0..2^6 (quick) / 2^7 (max: 1..40/70) with every pair of basis vectors, every permitted aliasing of the three arrays, two element types, and every pair of sequences over {-1,0,2} of length up to 4; FFTs of length 1..64/256 on every basis vector, every root (principal and its inverse), over residues mod 12289, 17 and 998244353 and complex numbers; ordinary and cyclic convolution of every pair of lengths 0..12 with every pair of basis vectors, every pair of lengths up to 70/130 with dense vectors, every pair of sequences over {0,1,2} of length up to 3; root wrappers for sizes 1..40 in every order of two followed by up to 241 (and two other orders of the three)
// MC_ASSUME: transform lengths are powers of two, the order of the given root is a power of two not less than the transform length; complex results are compared with a tolerance of 1e-9 times the length
#include "mc.h"
#include <stdint.h>
#include <string.h>
#include <vector>
#include <complex>
#include <algorithm>
#include <cmath>
#include "altruct/algorithm/math/convolutions.h"
#include "altruct/algorithm/math/fft.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/complex.h"
#include "altruct/structure/math/root_wrapper.h"
namespace am = altruct::math; typedef long long ll; typedef am::modulo<int, 1009, am::modulo_storage::CONSTANT> M9; typedef am::complex<double> C;
static ll val(int64_t x) { return x; } static ll val(int x) { return x; } static ll val(const M9& x) { return x.v; }
template<class T> static std::string str(const std::vector<T>& v) { std::vector<ll> w; for (auto& x : v) w.push_back(val(x)); return mc::show(w); }
enum { AND, OR, XOR, MAX, SUBSET };
static const char* NM[] = {"and", "or", "xor", "max", "subset"};
template<class T> static std::vector<T> def(int kind, const std::vector<T>& f, const std::vector<T>& g) { int n = (int)f.size(); std::vector<T> r(n, T(0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (kind == SUBSET && (i & j)) continue; int k = kind == AND ? i & j : kind == OR || kind == SUBSET ? i | j : kind == XOR ? i ^ j : std::max(i, j); r[k] += f[i] * g[j]; } return r; }
template<class T> static void fast(int kind, T* r, T* f, T* g, int L, int n) { switch (kind) { case AND: am::and_convolution(r, f, g, L); break; case OR: am::or_convolution(r, f, g, L); break; case XOR: am::xor_convolution(r, f, g, L); break; case MAX: am::max_convolution(r, f, g, n); break; default: am::fast_subset_convolution(r, f, g, L); } }
template<class T> static void slow(int kind, T* r, T* f, T* g, int L, int n) { switch (kind) { case AND: am::slow_and_convolution<T>(r, f, g, L); break; case OR: am::slow_or_convolution<T>(r, f, g, L); break; case XOR: am::slow_xor_convolution<T>(r, f, g, L); break; case MAX: am::slow_max_convolution<T>(r, f, g, n); break; default: am::slow_subset_convolution(r, f, g, L); } }
template<class T> static void conv1(int kind, const std::vector<T>& f, const std::vector<T>& g, bool with_slow) {
    int n = (int)f.size(), L = 0; while (1 << L < n) L++; auto want = def(kind, f, g); mc::op(); auto ok = [&](const std::vector<T>& r, const char* w) { MC_CHECK(r == want, "%s %s-convolution of %s and %s is %s, expected %s", w, NM[kind], str(f).c_str(), str(g).c_str(), str(r).c_str(), str(want).c_str()); };
    { auto a = f, b = g; std::vector<T> r(n, T(77)); fast(kind, r.data(), a.data(), b.data(), L, n); ok(r, "fast"); } { auto a = f, b = g; fast(kind, a.data(), a.data(), b.data(), L, n); ok(a, "in-place (first)"); } { auto a = f, b = g; fast(kind, b.data(), a.data(), b.data(), L, n); ok(b, "in-place (second)"); }
    if (f == g) { auto a = f; std::vector<T> r(n, T(77)); fast(kind, r.data(), a.data(), a.data(), L, n); ok(r, "self"); a = f; fast(kind, a.data(), a.data(), a.data(), L, n); ok(a, "in-place self"); }
    if (with_slow) { auto a = f, b = g; std::vector<T> r(n, T(0)); slow(kind, r.data(), a.data(), b.data(), L, n); ok(r, "slow"); MC_CHECK(a == f && b == g, "inputs changed"); }
}
template<class T> static void basis_t(int kind, int n, int i, T x, T y) { for (int j = 0; j < n; j++) { std::vector<T> f(n, T(0)), g(n, T(0)); f[i] = x; g[j] = y; conv1(kind, f, g, n <= 16); } std::vector<T> f(n, T(0)), g(n); f[i] = x; for (int j = 0; j < n; j++) g[j] = T(j * j % 7 + 1); conv1(kind, f, g, true); conv1(kind, g, f, false); conv1(kind, g, g, false); }
static void basis() { int kind = mc::choose(5), n; if (kind == MAX) n = 1 + mc::choose(mc::tier(40, 70)); else n = 1 << mc::choose(mc::tier(7, 8)); int i = mc::choose(n); mc::state(mc::H()(kind)(n)(i)); mc::trace("%s-convolution of length %d, basis vector %d", NM[kind], n, i); basis_t<int64_t>(kind, n, i, 1, 1); basis_t<int64_t>(kind, n, i, -3, 5); basis_t<M9>(kind, n, i, M9(1), M9(1)); basis_t<M9>(kind, n, i, M9(1008), M9(505)); }
static void small_values() { int kind = mc::choose(5), n = kind == MAX ? 1 + mc::choose(4) : 1 << mc::choose(3); std::vector<int64_t> f(n), g(n); static const int V[] = {-1, 0, 2}; for (auto& x : f) x = V[mc::choose(3)]; mc::state(mc::H()(kind).range(f)); int t = 1; for (int i = 0; i < n; i++) t *= 3; for (int m = 0; m < t; m++) { int y = m; for (auto& x : g) x = V[y % 3], y /= 3; conv1(kind, f, g, true); } }
template<class T> static void trans(int L, std::vector<T> f) {
    int n = 1 << L; mc::op(); typedef std::vector<T> V; auto ok = [&](const V& a, const V& b, const char* w) { MC_CHECK(a == b, "%s of %s is %s, expected %s", w, str(f).c_str(), str(a).c_str(), str(b).c_str()); };
    { V a = f, w(n, T(0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) w[i] += __builtin_parity(i & j) ? -f[j] : f[j]; am::fast_walsh_hadamard_transform(a.data(), L); ok(a, w, "Walsh-Hadamard transform"); am::fast_walsh_hadamard_transform(a.data(), L); for (int i = 0; i < n; i++) MC_CHECK(a[i] == f[i] * T(n), "Walsh-Hadamard is not its own inverse"); }
    V ss(n, T(0)), sd(n, T(0)); for (int i = 0; i < n; i++) for (int j = i;; j = (j - 1) & i) { ss[i] += f[j]; sd[i] += __builtin_parity(i ^ j) ? -f[j] : f[j]; if (!j) break; }
    { V a = f; am::fast_arith_transform_plus(a.data(), L); ok(a, ss, "arithmetic transform (+)"); am::fast_arith_transform_minus(a.data(), L); ok(a, f, "inverse arithmetic transform"); am::fast_arith_transform_minus(a.data(), L); ok(a, sd, "arithmetic transform (-)"); }
    { V a = f, r(n, T(55)); am::slow_subset_sum(r.data(), a.data(), L); ok(r, ss, "slow_subset_sum"); r.assign(n, T(55)); am::fast_subset_sum(r.data(), a.data(), L); ok(r, ss, "fast_subset_sum"); MC_CHECK(a == f, "input changed"); am::fast_subset_sum(a.data(), a.data(), L); ok(a, ss, "in-place fast_subset_sum"); r.assign(n, T(55)); am::fast_subset_sum_inverse(r.data(), a.data(), L); ok(r, f, "fast_subset_sum_inverse"); MC_CHECK(a == ss, "input changed"); am::fast_subset_sum_inverse(a.data(), a.data(), L); ok(a, f, "in-place fast_subset_sum_inverse"); am::fast_subset_sum_inverse(a.data(), a.data(), L); ok(a, sd, "fast_subset_sum_inverse"); }
}
static void transforms() { int L = mc::choose(mc::tier(6, 8)), n = 1 << L, i = mc::choose(n); mc::state(mc::H()(L)(i)); std::vector<int64_t> f(n); f[i] = 1; trans(L, f); f[i] = -7; f[n - 1 - i] += 3; trans(L, f); std::vector<M9> g(n, M9(0)); g[i] = M9(1); trans(L, g); for (int j = 0; j < n; j++) g[j] = M9(j * j + i); trans(L, g); }
static void radix2() { // the generic radix-2 driver visits every (u, v) butterfly once, halves first
    int L = mc::choose(6), n = 1 << L; mc::op(); mc::state(L); std::vector<int> f(n); for (int i = 0; i < n; i++) f[i] = i; std::vector<std::pair<int, int>> got, want; am::fast_radix2_dif_transform(f.data(), L, [&](int& u, int& v) { got.push_back({u, v}); }); for (int i = 0; i < n; i++) for (int b = 0; b < L; b++) if (!(i >> b & 1)) want.push_back({i, i | 1 << b}); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); MC_CHECK(got == want, "butterflies of length %d", n); }
// ---- FFT
static std::complex<double> std_(const C& c) { return {c.a, c.b}; }
template<class T> struct Dom;
template<int P, int G, int O> struct Mod {}; 
template<int P, int G, int O> struct Dom<Mod<P, G, O>> { typedef am::modulo<int, P, am::modulo_storage::CONSTANT> T; typedef T R; static R base() { return T(G); } static int order() { return O; } static T mk(int x) { return T(x); } static bool eq(const T& a, const T& b, int) { return a == b; } static T root(int size, ll e) { return am::powT(T(G), (ll)(O / size) * (((e % size) + size) % size)); } };
struct Cw {}; struct Cr {};
template<> struct Dom<Cw> { typedef C T; typedef am::root_wrapper<C> R; static R base() { return am::complex_root_wrapper<double>(4096); } static int order() { return base().size; } static T mk(int x) { return C(x); } static bool eq(const T& a, const T& b, int n) { return std::abs(std_(a) - std_(b)) < 1e-9 * n; } static T root(int size, ll e) { double A = 2 * acos(-1.) * (double)(((e % size) + size) % size) / size; return C(cos(A), sin(A)); } };
template<> struct Dom<Cr> { typedef C T; typedef C R; static R base() { double A = 2 * acos(-1.) / 256; return C(cos(A), sin(A)); } static int order() { return 256; } static T mk(int x) { return C(x); } static bool eq(const T& a, const T& b, int n) { return std::abs(std_(a) - std_(b)) < 1e-9 * n; } static T root(int size, ll e) { return Dom<Cw>::root(size, e); } };
template<class D> static void fft_basis(int n, int i, int x) {
    typedef Dom<D> Q; typedef typename Q::T T; if (n > Q::order()) return; mc::op(); auto root = am::powT(Q::base(), Q::order() / n); auto iroot = am::powT(root, n - 1); auto z = Q::mk(0); std::vector<T> src(n, z), want(n, z); src[i] = Q::mk(x); for (int k = 0; k < n; k++) want[k] = Q::root(n, (ll)i * k) * Q::mk(x);
    auto ok = [&](const std::vector<T>& g, const std::vector<T>& w, const char* s) { for (int k = 0; k < n; k++) MC_CHECK(Q::eq(g[k], w[k], n), "%s of basis vector %d of length %d is wrong at %d", s, i, n, k); };
    auto a = src; am::fft(a.data(), n, root); ok(a, want, "fft"); am::fft(a.data(), n, iroot); for (auto& v : a) v = v / Q::mk(n); ok(a, src, "inverse fft"); auto b = src; std::vector<T> d(n, Q::mk(9)); am::fft_rec(d.data(), b.data(), n, root); ok(d, want, "fft_rec"); for (int k = 0; k < n; k++) MC_CHECK(b[k] == src[k], "fft_rec changed its source"); am::fft_rec(b.data(), d.data(), n, iroot); for (auto& v : b) v = v / Q::mk(n); ok(b, src, "inverse fft_rec");
    for (int j = 0; j < n; j += n > 16 ? n / 7 : 1) { std::vector<T> f = src, g(n, z), r(n, Q::mk(5)), w(n, z); g[j] = Q::mk(3); w[(i + j) % n] = Q::mk(3 * x); am::fft_cyclic_convolution(r.data(), f.data(), g.data(), n, Q::base(), Q::order()); ok(r, w, "fft_cyclic_convolution"); }
}
typedef Mod<12289, 41, 4096> A1; typedef Mod<17, 3, 16> A2; typedef Mod<998244353, 31, 1 << 23> A3;
static void ffts() { int L = mc::choose(mc::tier(7, 9)), n = 1 << L, i = mc::choose(n); mc::state(mc::H()(L)(i)); mc::trace("fft of length %d, basis vector %d", n, i); fft_basis<A1>(n, i, 1); fft_basis<A1>(n, i, 77); fft_basis<A2>(n, i, 1); fft_basis<A3>(n, i, 1000000); fft_basis<Cw>(n, i, 1); fft_basis<Cr>(n, i, 2); }
template<class D> static void lin(const std::vector<int>& f, const std::vector<int>& g, bool cyc) {
    typedef Dom<D> Q; typedef typename Q::T T; int a = (int)f.size(), b = (int)g.size(), n = std::max(0, a + b - 1), l = 1; int vv = b ? (a + b - 1) / b * b : 0; while (l < (cyc ? vv + a - 1 : n)) l *= 2; if (l > Q::order()) return; mc::op(); std::vector<T> u, v, w(n, Q::mk(0)); for (int x : f) u.push_back(Q::mk(x)); for (int x : g) v.push_back(Q::mk(x));
    if (cyc) { if (b) for (int k = 0; k < n; k++) for (int i = 0; i < a; i++) w[k] += u[i] * v[((k - i) % b + b) % b]; } else for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) w[i + j] += u[i] * v[j];
    auto r = cyc ? am::cyclic_convolution<T>(u.begin(), u.end(), v.begin(), v.end(), Q::base(), Q::order()) : am::convolution<T>(u.begin(), u.end(), v.begin(), v.end(), Q::base(), Q::order()); MC_CHECK((int)r.size() == n, "%s convolution of %d and %d elements has %d elements", cyc ? "cyclic" : "ordinary", a, b, (int)r.size()); for (int k = 0; k < n; k++) MC_CHECK(Q::eq(r[k], w[k], 20 * n), "%s convolution of %s and %s is wrong at %d", cyc ? "cyclic" : "ordinary", mc::show(f).c_str(), mc::show(g).c_str(), k);
}
static void lin_all(const std::vector<int>& f, const std::vector<int>& g) { for (int c : {0, 1}) { lin<A1>(f, g, c); lin<A2>(f, g, c); lin<Cw>(f, g, c); } }
static void lengths() { int a = mc::choose(13), b = mc::choose(13); mc::state(mc::H()(a)(b)); mc::trace("lengths %d and %d", a, b); if (!a || !b) { lin_all(std::vector<int>(a, 1), std::vector<int>(b, 1)); return; } for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { std::vector<int> f(a), g(b); f[i] = 1; g[j] = 1; lin_all(f, g); } }
static void dense() { int N = mc::tier(70, 130), a = 1 + mc::choose(N), b = 1 + mc::choose(N); mc::state(mc::H()(a)(b)); std::vector<int> f(a), g(b); for (int i = 0; i < a; i++) f[i] = i * i % 11 + 1; for (int i = 0; i < b; i++) g[i] = i * 7 % 13 - 5; lin_all(f, g); lin<A3>(f, g, false); lin<A3>(f, g, true); }
static void tiny_values() { int a = 1 + mc::choose(3), b = 1 + mc::choose(3); std::vector<int> f(a), g(b); for (auto& x : f) x = mc::choose(3); for (auto& x : g) x = mc::choose(3); mc::state(mc::H().range(f).range(g)); lin_all(f, g); }
static void cyclic_slow() { int n = 1 + mc::choose(12), i = mc::choose(n); mc::state(mc::H()(n)(i)); for (int j = 0; j < n; j++) { mc::op(); std::vector<int64_t> f(n), g(n), r(n); f[i] = 2; g[j] = 3; am::slow_cyclic_convolution(r.data(), f.data(), g.data(), n); for (int k = 0; k < n; k++) MC_CHECK(r[k] == (k == (i + j) % n ? 6 : 0), "slow_cyclic_convolution"); } }
template<class F> static void root_ok(const am::root_wrapper<am::complex<F>>& w, int l, double eps) { MC_CHECK(w.size >= l && (w.size & (w.size - 1)) == 0, "root wrapper for %d has size %d", l, w.size); auto r = am::identityOf(w); for (int k = 0; k <= w.size; k++, r *= w) { am::complex<F> c = r; double A = 2 * acos(-1.) * k / w.size; MC_CHECK(fabs(c.a - cos(A)) < eps && fabs(c.b - sin(A)) < eps, "power %d of the root of order %d is (%g, %g)", k, w.size, (double)c.a, (double)c.b); am::complex<F> d = am::powT(w, k); MC_CHECK(fabs(d.a - c.a) < eps && fabs(d.b - c.b) < eps, "powT"); } am::complex<F> p = w; double A = 2 * acos(-1.) / w.size; MC_CHECK(fabs(p.a - cos(A)) < eps && fabs(p.b - sin(A)) < eps, "principal root of order %d is (%g, %g)", w.size, (double)p.a, (double)p.b); }
static void wrappers() { int a = 1 + mc::choose(20) * 2 - mc::choose(2), b = 1 + mc::choose(20) * 2, c = 1 + mc::choose(5) * 60; if (a < 1) return; mc::op(); mc::state(mc::H()(a)(b)(c)); mc::trace("roots for %d, %d, %d", a, b, c); { auto x = am::complex_root_wrapper<double>(a); auto y = am::complex_root_wrapper<double>(b); auto z = am::complex_root_wrapper<double>(c); root_ok(x, a, 1e-9); root_ok(y, b, 1e-9); root_ok(z, c, 1e-9); } { auto x = am::complex_root_wrapper<float>(b); auto y = am::complex_root_wrapper<float>(c); auto z = am::complex_root_wrapper<float>(a); root_ok(x, b, 1e-5); root_ok(y, c, 1e-5); root_ok(z, a, 1e-5); } { auto x = am::complex_root_wrapper<long double>(c); auto y = am::complex_root_wrapper<long double>(a); auto z = am::complex_root_wrapper<long double>(b); root_ok(x, c, 1e-9); root_ok(y, a, 1e-9); root_ok(z, b, 1e-9); }  }
MC_SETUP(all) { mc::add("basis", basis, 16); mc::add("small_values", small_values, 8); mc::add("transforms", transforms, 4); mc::add("radix2", radix2, 1); mc::add("ffts", ffts, 8); mc::add("lengths", lengths, 8); mc::add("dense", dense, 8); mc::add("tiny_values", tiny_values, 4); mc::add("cyclic_slow", cyclic_slow, 1); mc::add("wrappers", wrappers, 64); }
