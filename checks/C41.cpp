// C41 matrices and linear recurrences: every small matrix over small fields (with every partner), every small recurrence from every initial state, every short sequence for recurrence recovery, against Leibniz determinants, row-space enumeration and plain iteration.
// MC_BOUNDS: listed matrices up to 40x40 and recurrences of order up to 40 over five prime fields; every matrix up to 3x3 over GF(2), 2x2 over GF(3), GF(5) with every partner of the same and every multipliable shape; inverse, determinant, rank, powers -4..6 and large of every matrix up to 3x3 over GF(3), 4x4 over GF(2), 2x2 over GF(5), 2x2/3x3 over {-1,0,2} in fractions and doubles, 5x5 sparse families; every recurrence of order 1..4 over GF(2), 1..3 over GF(3), GF(5), 1..2 with a run-time modulus, with every initial state, n up to 24 and 10^18; every sequence of length 2..11 over GF(2), 2..7 over GF(3), 2..4 over GF(7) for recovery, recovery from generated recurrences of order up to 12; Fibonacci/Lucas numbers up to n = 60 (and 10^18 modulo a prime), p, q in -3..3; Bernoulli numbers up to 8 as fractions and up to 30/60 modulo primes
// MC_ASSUME: inverse only of invertible matrices; matrices are not empty; recovery is given at least two terms
#include "mc.h"
#include "large.h"
#include <stdint.h>
#include <stdio.h>
#include <math.h>
#include <cmath>
#include <algorithm>
#include <vector>
#include "altruct/algorithm/math/base.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/polynom.h"
#include "altruct/structure/math/matrix.h"
#include "altruct/algorithm/math/recurrence.h"
namespace am = altruct::math; typedef long long ll; typedef __int128 LL; typedef std::vector<ll> V; typedef std::vector<V> VV;
template<int Q> struct Con { typedef am::modulo<int, Q, am::modulo_storage::CONSTANT> T; static const ll P = Q; static T mk(ll x) { return T((int)x); } static ll val(const T& t) { return t.v; } };
template<int Q> struct Inst { typedef am::moduloX<int> T; static const ll P = Q; static T mk(ll x) { return T((int)x, Q); } static ll val(const T& t) { MC_CHECK(t.v == 0 || t.M() == Q, "element with modulus %d", t.M()); return t.v; } };
struct Int { typedef int64_t T; static const ll P = 0; static T mk(ll x) { return x; } static ll val(const T& t) { return t; } };
template<class D> static ll nrm(LL x) { return (ll)(D::P ? ((x % D::P) + D::P) % D::P : x); }
static std::string str(const VV& a) { std::string s; for (auto& r : a) s += mc::show(r); return s; }
template<class D> static VV rmul(const VV& a, const VV& b) { int n = (int)a.size(), m = (int)b.size(), p = (int)b[0].size(); VV r(n, V(p)); for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) for (int k = 0; k < m; k++) r[i][j] = nrm<D>(r[i][j] + (LL)a[i][k] * b[k][j]); return r; }
static VV rid(int n, ll one) { VV r(n, V(n)); for (int i = 0; i < n; i++) r[i][i] = one; return r; }
static ll rdet(const VV& a) { int n = (int)a.size(); std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; ll s = 0; do { ll t = 1; for (int i = 0; i < n; i++) { t *= a[i][p[i]]; for (int j = 0; j < i; j++) if (p[j] > p[i]) t = -t; } s += t; } while (std::next_permutation(p.begin(), p.end())); return s; }
template<class D> static int rrank(const VV& a) { int n = (int)a.size(), best = 0; for (int R = 1; R < 1 << n; R++) { int k = __builtin_popcount(R); if (k <= best) continue; for (int C = 1; C < 1 << n; C++) if (__builtin_popcount(C) == k) { VV s; for (int i = 0; i < n; i++) if (R >> i & 1) { s.push_back(V()); for (int j = 0; j < n; j++) if (C >> j & 1) s.back().push_back(a[i][j]); } if (nrm<D>(rdet(s)) != 0) { best = k; break; } } } return best; }
template<class D> using MT = am::matrix<typename D::T>;
template<class D> static MT<D> mk(const VV& a) { MT<D> m((int)a.size(), (int)a[0].size(), D::mk(0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) m[i][j] = D::mk(a[i][j]); return m; }
template<class D> static VV get(const MT<D>& m) { VV r(m.rows()); for (int i = 0; i < m.rows(); i++) for (auto& x : m[i]) r[i].push_back(D::val(x)); return r; }
template<class D> static void __attribute__((noinline)) eq(const MT<D>& g, const VV& w, const char* what, const VV& a) { VV x = get<D>(g); if (x != w) mc::fail("%s of %s is %s, expected %s (mod %lld)", what, str(a).c_str(), str(x).c_str(), str(w).c_str(), (ll)D::P); MC_CHECK(g.rows() == (int)w.size() && g.cols() == (int)w[0].size(), "shape"); }
template<class D> static void square(const VV& a) {
    int n = (int)a.size(); auto m = mk<D>(a); const auto& cm = m; mc::op(); ll d = nrm<D>(rdet(a)); VV one = rid(n, nrm<D>(1)); MC_CHECK(D::val(m.det()) == d, "determinant of %s is %lld, expected %lld (mod %lld)", str(a).c_str(), (ll)D::val(m.det()), d, (ll)D::P); int r = rrank<D>(a); MC_CHECK(m.rank() == r, "rank of %s is %d, expected %d (mod %lld)", str(a).c_str(), m.rank(), r, (ll)D::P); eq<D>(m, a, "value", a); if (d) { auto i = cm.inverse(); VV x = get<D>(i); MC_CHECK(rmul<D>(a, x) == one && rmul<D>(x, a) == one, "inverse of %s is %s", str(a).c_str(), str(x).c_str()); VV w = x; for (int e = 1; e < 5; e++, w = rmul<D>(w, x)) eq<D>(cm.pow(-e), w, "negative power", a); auto q = m; q /= q; eq<D>(q, one, "quotient by itself", a); eq<D>(m / m, one, "quotient by itself", a); }
    VV w = one; for (int e = 0; e < 7; e++, w = rmul<D>(w, a)) { eq<D>(cm.pow(e), w, "power", a); eq<D>(am::powT(m, e), w, "power", a); } { VV b = a, x = one; for (ll e = 1000000007; e; e >>= 1) { if (e & 1) x = rmul<D>(x, b); b = rmul<D>(b, b); } eq<D>(cm.pow(1000000007), x, "large power", a); } { auto q = m; q *= q; eq<D>(q, rmul<D>(a, a), "square in place", a); } eq<D>(am::identityOf(m), one, "identity", a); eq<D>(am::castOf(m, D::mk(1)), one, "cast of one", a); eq<D>(MT<D>::identity(n, D::mk(1)), one, "identity", a); { MT<D> x = m, inv; typename D::T dd = D::mk(0); int k = MT<D>::gauss(x, inv, dd); MC_CHECK(k == r && D::val(dd) == d, "gauss"); if (d) { eq<D>(x, one, "elimination", a); MC_CHECK(rmul<D>(get<D>(inv), a) == one, "gauss inverse"); } }
}
template<class D> static void shape(const VV& a, const std::vector<ll>& L) {
    int n = (int)a.size(), m = (int)a[0].size(); auto x = mk<D>(a); mc::op(); eq<D>(x, a, "value", a); VV t(m, V(n)), ng(n, V(m)), db(n, V(m)), z(n, V(m)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { t[j][i] = a[i][j]; ng[i][j] = nrm<D>(-a[i][j]); db[i][j] = nrm<D>(2 * a[i][j]); } eq<D>(x.transpose(), t, "transpose", a); eq<D>(-x, ng, "negation", a); eq<D>(+x, a, "plus", a); { auto q = x; q += q; eq<D>(q, db, "+= itself", a); q = x; q -= q; eq<D>(q, z, "-= itself", a); } eq<D>(am::zeroOf(x), z, "zero", a);
    auto sc = [&](ll s) { VV w = a; for (auto& r : w) for (auto& y : r) y = nrm<D>((LL)y * s); return w; }; for (ll s : L) { eq<D>(x * D::mk(s), sc(s), "scalar multiple", a); if (D::P && s) eq<D>((x / D::mk(s)) * D::mk(s), a, "scalar quotient", a); } for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { auto q = x; q *= q[i][j]; eq<D>(q, sc(a[i][j]), "*= own element", a); if (D::P && a[i][j]) { q = x; q /= q[i][j]; auto r = x / D::mk(a[i][j]); eq<D>(q, get<D>(r), "/= own element", a); } }
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { for (int k = 1; k <= n - i; k++) for (int l = 1; l <= m - j; l++) { VV w; for (int u = 0; u < k; u++) w.push_back(V(a[i + u].begin() + j, a[i + u].begin() + j + l)); eq<D>(MT<D>(x, i, j, k, l), w, "submatrix", a); } VV w; for (int u = i; u < n; u++) w.push_back(V(a[u].begin() + j, a[u].end())); eq<D>(MT<D>(x, i, j), w, "submatrix to the end", a); } auto y = x, s = MT<D>(D::mk(1)); s.swap(y); eq<D>(s, a, "swap", a);
}
template<class D> static void pair(const VV& a, const VV& b) { int n = (int)a.size(), m = (int)a[0].size(); auto x = mk<D>(a), y = mk<D>(b); mc::op(); if (b.size() == a.size() && b[0].size() == a[0].size()) { VV s(n, V(m)), d(n, V(m)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) s[i][j] = nrm<D>(a[i][j] + b[i][j]), d[i][j] = nrm<D>(a[i][j] - b[i][j]); eq<D>(x + y, s, "sum", a); eq<D>(x - y, d, "difference", a); auto q = x; q += y; eq<D>(q, s, "+=", a); q = x; q -= y; eq<D>(q, d, "-=", a); MC_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "comparison of %s and %s", str(a).c_str(), str(b).c_str()); } if ((int)b.size() == m) { VV w = rmul<D>(a, b); eq<D>(x * y, w, "product", a); auto q = x; q *= y; eq<D>(q, w, "*=", a); q = y; eq<D>(x *= q, w, "*=", a); if (D::P && n == m && b[0].size() == b.size() && nrm<D>(rdet(b))) { x = mk<D>(a); auto t = x / y; MC_CHECK(rmul<D>(get<D>(t), b) == a, "quotient of %s by %s", str(a).c_str(), str(b).c_str()); x /= y; eq<D>(x, get<D>(t), "/=", a); } } }
template<class D> static std::vector<ll> letters() { std::vector<ll> v; if (!D::P) return {0, -1, 2}; for (int i = 0; i < D::P; i++) v.push_back(i); return v; }
static VV pick(int n, int m, const std::vector<ll>& L) { VV a(n, V(m)); for (auto& r : a) for (auto& x : r) x = L[mc::choose((int)L.size())]; return a; }
template<class F> static void each(int n, int m, const std::vector<ll>& L, F f) { VV b(n, V(m, L[0])); std::vector<int> d(n * m); for (;;) { f(b); int i = 0; while (i < n * m && d[i] == (int)L.size() - 1) d[i] = 0, b[i / m][i % m] = L[0], i++; if (i == n * m) break; b[i / m][i % m] = L[++d[i]]; } }
template<class D> static void pairs_t(int n, int m, int budget) { auto L = letters<D>(); VV a = pick(n, m, L); mc::state(mc::H()(D::P)(n)(m).str(str(a))); mc::trace("partners of %s over %lld", str(a).c_str(), (ll)D::P); shape<D>(a, L); if (n == m) square<D>(a); auto fits = [&](int p, int q) { double c = 1; for (int i = 0; i < p * q; i++) c *= L.size(); return c <= budget; }; if (fits(n, m)) each(n, m, L, [&](const VV& b) { pair<D>(a, b); }); for (int p = 1; p <= 3; p++) if (!(p == m && n == m) && fits(m, p)) each(m, p, L, [&](const VV& b) { pair<D>(a, b); }); }
static void pairs_gf2() { int n = 1 + mc::choose(3), m = 1 + mc::choose(3); pairs_t<Con<2>>(n, m, 512); }
static void pairs_gf3() { int n = 1 + mc::choose(2), m = 1 + mc::choose(2); pairs_t<Con<3>>(n, m, 81); } static void pairs_gf5() { int n = 1 + mc::choose(2), m = 1 + mc::choose(2); pairs_t<Con<5>>(n, m, mc::tier(25, 625)); } static void pairs_x3() { int n = 1 + mc::choose(2), m = 1 + mc::choose(2); pairs_t<Inst<3>>(n, m, 81); }
static void pairs_int() { int n = 1 + mc::choose(3), m = 1 + mc::choose(n == 3 ? 2 : 3); auto L = letters<Int>(); VV a = pick(n, m, L); mc::state(mc::H()(n)(m).str(str(a))); shape<Int>(a, L); for (int p = 1; p <= 3; p++) if (m * p <= 4) each(m, p, L, [&](const VV& b) { pair<Int>(a, b); }); if (n * m <= 4) each(n, m, L, [&](const VV& b) { pair<Int>(a, b); }); }
static void squares() { int k = mc::choose(mc::tier(6, 7)); switch (k) { case 0: { VV a = pick(3, 3, letters<Con<3>>()); mc::state(mc::H()(k).str(str(a))); square<Con<3>>(a); break; } case 1: { VV a = pick(4, 4, letters<Con<2>>()); mc::state(mc::H()(k).str(str(a))); square<Con<2>>(a); break; } case 2: { VV a = pick(2, 2, letters<Con<5>>()); mc::state(mc::H()(k).str(str(a))); square<Con<5>>(a); break; } case 3: { VV a = pick(2, 2, letters<Inst<7>>()); mc::state(mc::H()(k).str(str(a))); square<Inst<7>>(a); break; } case 4: { VV a = pick(1, 1, letters<Con<7>>()); mc::state(mc::H()(k).str(str(a))); square<Con<7>>(a); break; }
    case 5: { // 5x5 over GF(3): two free rows, the others shifted units and copies (every rank and pivot pattern)
        VV a(5, V(5)); int p = mc::choose(120), z = mc::choose(32); std::vector<int> q = {0, 1, 2, 3, 4}; for (int i = 0; i < p; i++) std::next_permutation(q.begin(), q.end()); for (int i = 0; i < 5; i++) if (z >> i & 1) a[i][q[i]] = 1 + i % 2; int s = mc::choose(3), t = mc::choose(4); if (s == 1) for (int j = 0; j < 5; j++) a[t + 1][j] = (a[t + 1][j] + a[t][j]) % 3; if (s == 2) for (int i = 0; i < 5; i++) a[i][t] = (a[i][t] + 2 * a[i][t + 1]) % 3; mc::state(mc::H()(k).str(str(a))); square<Con<3>>(a); break; }
    default: { VV a = pick(3, 3, letters<Con<5>>()); mc::state(mc::H()(k).str(str(a))); square<Con<5>>(a); } } }
typedef am::fraction<int64_t> F;
static void rational() { int n = 2 + mc::choose(2); VV a = pick(n, n, {-1, 0, 2}); mc::state(mc::H().str(str(a))); mc::op(); am::matrix<F> m(n, n); am::matrix<double> md(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = F(a[i][j]), md[i][j] = (double)a[i][j]; ll d = rdet(a); MC_CHECK(m.det() == F(d), "determinant of %s", str(a).c_str()); MC_CHECK(m.rank() == rrank<Int>(a), "rank of %s is %d", str(a).c_str(), m.rank()); MC_CHECK(fabs(md.det() - d) < 1e-9, "determinant of %s in doubles is %g", str(a).c_str(), md.det()); if (d) { auto i = m.inverse(); MC_CHECK(m * i == am::identityOf(m) && i * m == am::identityOf(m), "inverse of %s", str(a).c_str()); MC_CHECK(m.pow(-2) * m * m == am::identityOf(m), "pow"); auto id = md.inverse(); auto o = md * id; for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) MC_CHECK(fabs(o[x][y] - (x == y)) < 1e-9, "inverse of %s in doubles", str(a).c_str()); } }
// ---- large matrices: full, sparse, triangular, permuted, of low rank, with dependent rows
template<class D> static void large_t() {
    static const int N[] = {6, 10, 20, 40}; int n = N[mc::choose(4)], kind = mc::choose(9), seed = mc::choose(3); mc::state(mc::H()(D::P)(n)(kind)(seed)); mc::trace("%dx%d matrix of kind %d, member %d over %lld", n, n, kind, seed, (ll)D::P); lg::Lcg g(n + kind * 3 + seed * 77); auto rnd = [&] { return (ll)(((uint64_t)g() << 20 ^ g()) % (uint64_t)D::P); }; VV a(n, V(n)); std::vector<int> q = lg::order(n, (kind + seed) % lg::NORDERS);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = kind == 0 ? rnd() : kind == 1 ? (g.below(n) < 2 ? rnd() : 0) : kind == 2 ? (j >= i ? rnd() : 0) : kind == 3 ? (q[i] == j ? 1 + rnd() % (D::P - 1) : 0) : kind == 4 ? (j <= i ? (i == j ? 1 : rnd()) : 0) : kind == 5 ? (i == j) * (i % 3 != seed) : kind == 6 ? nrm<D>((LL)(i + 1) * (j + seed)) : rnd();
    if (kind == 7) for (int i = 2; i < n; i += 3) for (int j = 0; j < n; j++) a[i][j] = nrm<D>((LL)a[i - 1][j] * 3 + a[i - 2][j]); if (kind == 8) { for (int i = 0; i < n; i++) a[i][seed] = 0; for (int j = 0; j < n; j++) a[n / 2][j] = 0; }
    VV e = a; ll det = 1 % D::P; int rank = 0; auto inv = [&](ll x) { ll r = 1, k = D::P - 2; for (; k; k >>= 1) { if (k & 1) r = nrm<D>((LL)r * x); x = nrm<D>((LL)x * x); } return r; }; for (int c = 0; c < n; c++) { int p = rank; while (p < n && !e[p][c]) p++; if (p == n) { det = 0; continue; } if (p != rank) { std::swap(e[p], e[rank]); det = nrm<D>(-det); } det = nrm<D>((LL)det * e[rank][c]); ll v = inv(e[rank][c]); for (int i = rank + 1; i < n; i++) if (e[i][c]) { ll f = nrm<D>((LL)e[i][c] * v); for (int j = c; j < n; j++) e[i][j] = nrm<D>(e[i][j] - (LL)f * e[rank][j]); } rank++; }
    auto m = mk<D>(a); const auto& cm = m; mc::op(); MC_CHECK(D::val(m.det()) == det, "determinant is %lld, expected %lld", (ll)D::val(m.det()), det); MC_CHECK(m.rank() == rank, "rank is %d, expected %d", m.rank(), rank); MC_CHECK(get<D>(m) == a, "det or rank changes the matrix"); MC_CHECK(get<D>(cm * cm) == rmul<D>(a, a), "square"); VV x = rmul<D>(a, rmul<D>(a, a)); MC_CHECK(get<D>(cm.pow(3)) == x, "cube"); VV b = a, w = rid(n, nrm<D>(1)); for (ll k = 1000003; k; k >>= 1) { if (k & 1) w = rmul<D>(w, b); b = rmul<D>(b, b); } MC_CHECK(get<D>(cm.pow(1000003)) == w, "large power"); if (det) { VV i = get<D>(cm.inverse()), one = rid(n, nrm<D>(1)); MC_CHECK(rmul<D>(a, i) == one && rmul<D>(i, a) == one, "inverse"); VV i2 = rmul<D>(i, i); MC_CHECK(get<D>(cm.pow(-2)) == i2, "negative power"); MC_CHECK(rmul<D>(get<D>(cm / m), a) == a, "quotient"); }
    VV t(n, V(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) t[j][i] = a[i][j]; MC_CHECK(get<D>(cm.transpose()) == t, "transpose"); int h = n / 2; VV u(n, V(h)); for (int i = 0; i < n; i++) for (int j = 0; j < h; j++) u[i][j] = rnd(); MC_CHECK(get<D>(cm * mk<D>(u)) == rmul<D>(a, u), "rectangular product"); }
static void large() { switch (mc::choose(4)) { case 0: large_t<Con<998244353>>(); break; case 1: large_t<Con<5>>(); break; case 2: large_t<Con<2>>(); break; default: large_t<Inst<1000000007>>(); } }
template<class D> static void large_rec_t() { typedef typename D::T T; static const int N[] = {5, 12, 25, 40}; int L = N[mc::choose(4)], kind = mc::choose(4); mc::state(mc::H()(D::P)(L)(kind)(1)); mc::trace("recurrence of order %d, kind %d over %lld", L, kind, (ll)D::P); lg::Lcg g(L + kind); V fc(L), s(L); std::vector<T> f, a0; for (int i = 0; i < L; i++) { fc[i] = kind == 1 ? i == L - 1 : kind == 2 ? (i % 5 == 4) : nrm<D>(g()); s[i] = kind == 3 ? i == L - 1 : nrm<D>(g()); } fc[L - 1] = fc[L - 1] ? fc[L - 1] : 1; for (int i = 0; i < L; i++) f.push_back(D::mk(fc[i])), a0.push_back(D::mk(s[i])); while (s.size() < 400) { ll t = 0; for (int i = 0; i < L; i++) t = nrm<D>(t + (LL)fc[i] * s[s.size() - 1 - i]); s.push_back(t); } mc::op();
    for (int n : {0, 1, L - 1, L, L + 1, 2 * L - 1, 2 * L, 2 * L + 1, 63, 64, 65, 127, 128, 255, 256, 399}) { ll r = D::val(am::linear_recurrence<T, T>(f, a0, n)); MC_CHECK(r == s[n], "term %d is %lld, expected %lld", n, r, s[n]); } for (int len : {2 * L, 2 * L + 1, 3 * L, 200}) { std::vector<T> t; for (int i = 0; i < len; i++) t.push_back(D::mk(s[i])); auto c = am::berlekamp_massey<T, T>(t, D::mk(1)); int K = (int)c.size(); MC_CHECK(K <= L, "recovered order %d from %d terms", K, len); for (int n = K; n < 400; n++) { ll x = 0; for (int i = 0; i < K; i++) x = nrm<D>(x + (LL)D::val(c[i]) * s[n - 1 - i]); MC_CHECK(x == s[n], "the recurrence recovered from %d terms gives a wrong term %d", len, n); } } }
static void large_rec() { switch (mc::choose(4)) { case 0: large_rec_t<Con<998244353>>(); break; case 1: large_rec_t<Con<5>>(); break; case 2: large_rec_t<Con<2>>(); break; default: large_rec_t<Inst<1000000007>>(); } }
MC_SETUP(large_setup) { mc::add("large", large, 36); mc::add("large_rec", large_rec, 4); }
// ---- recurrences
template<class D> static void rec_t(int L) {
    typedef typename D::T T; std::vector<T> f, a0; V fc(L), fi(L); for (auto& x : fc) x = mc::choose((int)D::P); for (auto& x : fi) x = mc::choose((int)D::P); mc::op(); mc::state(mc::H()(D::P).range(fc).range(fi)); mc::trace("recurrence %s from %s modulo %lld", mc::show(fc).c_str(), mc::show(fi).c_str(), (ll)D::P); for (ll x : fc) f.push_back(D::mk(x)); for (ll x : fi) a0.push_back(D::mk(x));
    V s = fi; while (s.size() < 25) { LL t = 0; for (int i = 0; i < L; i++) t += fc[i] * s[s.size() - 1 - i]; s.push_back(nrm<D>(t)); } for (int n = 0; n < 25; n++) { ll g = D::val(am::linear_recurrence<T, T>(f, a0, n)); MC_CHECK(g == s[n], "term %d of the recurrence %s from %s is %lld, expected %lld (mod %lld)", n, mc::show(fc).c_str(), mc::show(fi).c_str(), g, s[n], (ll)D::P); } std::vector<T> run = a0; for (int n = L; n < 25; n++) { T x = am::linear_recurrence_next<T, T>(f, run); MC_CHECK(D::val(x) == s[n], "next term %d", n); run.push_back(x); }
    { VV c(L, V(L)); for (int i = 0; i < L; i++) c[0][i] = fc[i]; for (int i = 1; i < L; i++) c[i][i - 1] = 1; VV r = rid(L, 1); for (ll e = 1000000000000000003ll; e; e >>= 1) { if (e & 1) r = rmul<D>(r, c); c = rmul<D>(c, c); } ll w = 0; for (int i = 0; i < L; i++) w = nrm<D>(w + r[L - 1][i] * fi[L - 1 - i]); MC_CHECK(D::val(am::linear_recurrence<T, T>(f, a0, (int64_t)1000000000000000003ll)) == w, "term 10^18+3 of the recurrence %s from %s", mc::show(fc).c_str(), mc::show(fi).c_str()); }
    auto p = am::linear_recurrence_coeff_to_poly(f); MC_CHECK(p.deg() == L && D::val(p.at(L)) == nrm<D>(1), "characteristic polynomial"); for (int i = 0; i < L; i++) MC_CHECK(D::val(p.at(L - 1 - i)) == nrm<D>(-fc[i]), "characteristic polynomial coefficient %d", i); auto back = am::linear_recurrence_poly_to_coeff(p); MC_CHECK((int)back.size() == L, "coefficients"); for (int i = 0; i < L; i++) MC_CHECK(D::val(back[i]) == fc[i], "coefficient %d", i);
    if (L > 0) for (int len : {2 * L, 2 * L + 1, 2 * L + 4, 20}) { std::vector<T> t; for (int i = 0; i < len; i++) t.push_back(D::mk(s[i])); auto c = am::berlekamp_massey<T, T>(t, D::mk(1)); int K = (int)c.size(); MC_CHECK(K <= L, "recovered order %d for the recurrence %s from %s given %d terms", K, mc::show(fc).c_str(), mc::show(fi).c_str(), len); for (int n = K; n < 25; n++) { LL x = 0; for (int i = 0; i < K; i++) x += (LL)D::val(c[i]) * s[n - 1 - i]; MC_CHECK(nrm<D>(x) == s[n], "the recurrence recovered from %d terms of %s does not give term %d (mod %lld)", len, mc::show(s).c_str(), n, (ll)D::P); } }
}
static void rec_gf2() { rec_t<Con<2>>(1 + mc::choose(mc::tier(4, 5))); } static void rec_gf3() { rec_t<Con<3>>(1 + mc::choose(mc::tier(3, 4))); } static void rec_gf5() { rec_t<Con<5>>(1 + mc::choose(mc::tier(2, 3))); } static void rec_x3() { rec_t<Inst<3>>(1 + mc::choose(mc::tier(2, 3))); }
template<class D> static void bm_t(int maxlen) { typedef typename D::T T; int len = 2 + mc::choose(maxlen - 1); V s(len); for (auto& x : s) x = mc::choose((int)D::P); mc::op(); mc::state(mc::H()(D::P).range(s)); mc::trace("recurrence of %s modulo %lld", mc::show(s).c_str(), (ll)D::P); int n = len / 2, use = 2 * n; V best; int order = -1; for (int L = 0; L <= n && order < 0; L++) { int tot = 1; for (int i = 0; i < L; i++) tot *= (int)D::P; for (int m = 0; m < tot && order < 0; m++) { V f(L); int t = m; for (auto& x : f) x = t % D::P, t /= D::P; bool ok = true; for (int k = L; k < use && ok; k++) { ll y = 0; for (int i = 0; i < L; i++) y += f[i] * s[k - 1 - i]; ok = nrm<D>(y) == s[k]; } if (ok) order = L, best = f; } } if (order < 0) return;
    std::vector<T> a; for (ll x : s) a.push_back(D::mk(x)); auto c = am::berlekamp_massey<T, T>(a, D::mk(1)); V g; for (auto& x : c) g.push_back(D::val(x)); MC_CHECK(g == best, "recurrence of %s modulo %lld is %s, expected %s", mc::show(s).c_str(), (ll)D::P, mc::show(g).c_str(), mc::show(best).c_str()); auto p = am::berlekamp_massey_poly<T, T>(a, D::mk(1)); MC_CHECK(p.deg() == order && D::val(p.at(order)) == nrm<D>(1), "characteristic polynomial of %s", mc::show(s).c_str()); for (int i = 0; i < order; i++) MC_CHECK(D::val(p.at(i)) == nrm<D>(-best[order - 1 - i]), "characteristic polynomial"); }
static void bm_gf2() { bm_t<Con<2>>(mc::tier(11, 13)); } static void bm_gf3() { bm_t<Con<3>>(mc::tier(7, 8)); } static void bm_gf7() { bm_t<Con<7>>(mc::tier(4, 5)); }
typedef Con<1000000007> B; typedef B::T BT; typedef am::modulo<int64_t, 1000000007, am::modulo_storage::CONSTANT> BL;
static void large_orders() { int L = 1 + mc::choose(mc::tier(12, 120)), k = mc::choose(6); mc::op(); mc::state(mc::H()(L)(k)); std::vector<BL> f, a; for (int i = 0; i < L; i++) { ll x = 0; switch (k) { case 0: x = 1; break; case 1: x = i == L - 1; break; case 2: x = 17 + 31 * i * i; break; case 3: x = i % 2 ? -1 : 2; break; case 4: x = i == 0 || i == L - 1 ? 3 : 0; break; default: x = i + 1; } f.push_back(BL(x)); a.push_back(BL(i == L - 1 ? 1 : k == 5 ? i : 0)); } std::vector<BL> s = a; while ((int)s.size() < 4 * L + 10) { BL x(0); for (int i = 0; i < L; i++) x += f[i] * s[s.size() - 1 - i]; s.push_back(x); } for (int n : {0, L - 1, L, L + 1, 2 * L, 3 * L + 5, 4 * L + 9}) MC_CHECK((am::linear_recurrence<BL, BL>(f, a, n) == s[n]), "term %d of a recurrence of order %d", n, L); std::vector<BL> t(s.begin(), s.begin() + 2 * L); auto c = am::berlekamp_massey<BL>(t); int K = (int)c.size(); MC_CHECK(K <= L, "recovered order %d of %d", K, L); for (int n = K; n < (int)s.size(); n++) { BL x(0); for (int i = 0; i < K; i++) x += c[i] * s[n - 1 - i]; MC_CHECK(x == s[n], "recovered recurrence of order %d at %d", L, n); } }
static void lucas() { int p = mc::choose(7) - 3, q = mc::choose(7) - 3; mc::op(); mc::state(mc::H()(p)(q)); typedef int64_t T; LL u0 = 0, u1 = 1, v0 = 2, v1 = p; for (int n = 0; n < 25; n++) { MC_CHECK(am::lucas_u<T>(p, q, n) == (T)u0 && am::lucas_v<T>(p, q, n) == (T)v0, "Lucas numbers U, V(%d, %d) at %d are %lld, %lld", p, q, n, (ll)am::lucas_u<T>(p, q, n), (ll)am::lucas_v<T>(p, q, n)); LL t = p * u1 - q * u0; u0 = u1; u1 = t; t = p * v1 - q * v0; v0 = v1; v1 = t; } BT mp(p), mq(q); BT a(0), b(1), c(2), d = mp; for (int n = 0; n < 200; n++) { MC_CHECK(am::lucas_u<BT>(mp, mq, n) == a && am::lucas_v<BT>(mp, mq, n) == c, "Lucas numbers modulo a prime at %d", n); BT t = mp * b - mq * a; a = b; b = t; t = mp * d - mq * c; c = d; d = t; } }
static void fib() { int n = mc::choose(61); mc::op(); mc::state(n); ll a = 0, b = 1, c = 2, d = 1; for (int i = 0; i < n; i++) { ll t = a + b; a = b; b = t; t = c + d; c = d; d = t; } MC_CHECK(am::fibonacci<int64_t>(n) == a && am::lucas_l<int64_t>(n) == c, "fibonacci(%d) = %lld, lucas_l = %lld", n, (ll)am::fibonacci<int64_t>(n), (ll)am::lucas_l<int64_t>(n)); MC_CHECK(am::fibonacci<BT>(n) == BT((int)(a % 1000000007)) && am::lucas_l<BT>(n) == BT((int)(c % 1000000007)), "modulo a prime at %d", n); typedef am::moduloX<int64_t> X; X id(1, 1000); MC_CHECK(am::fibonacci<X>(n, id).v == a % 1000 && am::lucas_l<X>(n, id).v == c % 1000, "modulo 1000 at %d", n); ll big = 1000000000000000000ll + n; LL x = 0, y = 1; const ll M = 1000000007; for (int i = 62; i >= 0; i--) { LL t = x * ((2 * y - x + M) % M) % M, w = (x * x + y * y) % M; x = t; y = w; if (big >> i & 1) { t = (x + y) % M; x = y; y = t; } } MC_CHECK(am::fibonacci<BT>((int64_t)big).v == (int)x, "fibonacci(10^18 + %d)", n); MC_CHECK(am::lucas_l<BT>((int64_t)big).v == (int)((2 * y - x + M) % M), "lucas_l(10^18 + %d)", n); }
static void bernoulli() { int n = mc::choose(mc::tier(31, 61)); mc::op(); mc::state(n); auto b = am::bernoulli_b<BT>(n); MC_CHECK((int)b.size() == n + 1, "size"); for (int m = 0; m <= n; m++) { BT s(0), c(1); for (int k = 0; k <= m; k++) { s += c * b[k]; c = c * BT(m + 1 - k) / BT(k + 1); } MC_CHECK(s == BT(m + 1), "Bernoulli numbers up to %d do not satisfy the recurrence at %d", n, m); } if (n <= 8) { auto f = am::bernoulli_b<F>(n); for (int m = 0; m <= n; m++) { F s(0), c(1); for (int k = 0; k <= m; k++) { s += c * f[k]; c = c * F(m + 1 - k) / F(k + 1); } MC_CHECK(s == F(m + 1), "Bernoulli fractions"); } } typedef am::moduloX<int64_t> X; auto x = am::bernoulli_b<X>(n, X(1, 1000000007)); for (int m = 0; m <= n; m++) MC_CHECK(x[m].v == b[m].v, "Bernoulli numbers with a run-time modulus"); }
MC_SETUP(all) { mc::add("pairs_gf2", pairs_gf2, 16); mc::add("pairs_gf3", pairs_gf3, 8); mc::add("pairs_gf5", pairs_gf5, 16); mc::add("pairs_x3", pairs_x3, 8); mc::add("pairs_int", pairs_int, 8); mc::add("squares", squares, 64); mc::add("rational", rational, 16); mc::add("rec_gf2", rec_gf2, 8); mc::add("rec_gf3", rec_gf3, 8); mc::add("rec_gf5", rec_gf5, 8); mc::add("rec_x3", rec_x3, 4); mc::add("bm_gf2", bm_gf2, 8); mc::add("bm_gf3", bm_gf3, 8); mc::add("bm_gf7", bm_gf7, 8); mc::add("large_orders", large_orders, 8); mc::add("lucas", lucas, 4); mc::add("fib", fib, 2); mc::add("bernoulli", bernoulli, 1); }
