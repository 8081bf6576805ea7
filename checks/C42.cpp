// C42 number types: fractions, quadratic extensions, complex numbers, values with infinity, Moebius transformations, double-width integers and symbolic values against exact reference arithmetic on exhaustive small domains and limb boundary patterns.
// MC_BOUNDS: every pair (and triple for the ring laws) of fractions with numerator/denominator within 6 (thorough 9); every pair of a+b sqrt(D) over GF(2), GF(3), GF(5), GF(7) (run-time and compile-time modulus), int with coefficients within 3 and double, for static, constant and per-instance D; every pair of GF(9)/GF(49)/rational values with infinity; every Moebius and anti-Moebius transformation over GF(9) (720 normal forms x2) evaluated on all ten points, with its inverse, normal form and composition with a set of others (thorough: with every other); real Moebius transformations with coefficients within 2 at every multiple of 1/2 within 2 and infinity; every prim_int pair of 8 bits; double-width integers of 16 bits (every value with 64 boundary values on either side; thorough 1024; divisions with an eighth of them in quick runs), 32, 64, 128, 256 and 512 bits over every tuple of boundary limbs with every operation, every shift count and full products; every expression of up to three symbolic operators
// MC_ASSUME: denominators are not zero; divisors are invertible (or, for integers, divide exactly or are non-zero); combinations marked undefined in the with_infinity table are not evaluated
#include "mc.h"
#include <stdint.h>
#include <limits.h>
#include <stdio.h>
#include <math.h>
#include <cmath>
#include <array>
#include <string>
#include <algorithm>
#include <vector>
#include "altruct/algorithm/math/base.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/quadratic.h"
#include "altruct/structure/math/complex.h"
#include "altruct/structure/math/with_infinity.h"
#include "altruct/structure/math/moebius_tr.h"
#include "altruct/structure/math/symbolic.h"
#include "altruct/structure/math/double_int.h"
namespace am = altruct::math; typedef long long ll;
// ---- fractions
static ll gcdl(ll a, ll b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { ll t = a % b; a = b; b = t; } return a; }
struct R { ll p, q; R(ll p_, ll q_ = 1) { ll g = gcdl(p_, q_); if (q_ < 0) g = -g; p = p_ / g; q = q_ / g; } bool operator==(const R& o) const { return p == o.p && q == o.q; } };
template<class T> static void is(const am::fraction<T>& f, const R& r, const char* what, R a, R b) { MC_CHECK((ll)f.p == r.p && (ll)f.q == r.q, "%s of %lld/%lld and %lld/%lld is %lld/%lld, expected %lld/%lld", what, a.p, a.q, b.p, b.q, (ll)f.p, (ll)f.q, r.p, r.q); }
template<class T> static void fractions_t() {
    typedef am::fraction<T> F; const int N = mc::tier(6, 9); int p = mc::choose(2 * N + 1) - N, q = mc::choose(2 * N) - N; if (q >= 0) q++; mc::state(mc::hash(p, q, sizeof(T))); R a(p, q); mc::trace("fraction %d/%d with all partners", p, q);
    F x((T)p, (T)q); is(x, a, "construction", a, a); is(-x, R(-a.p, a.q), "negation", a, a); F y = x; y += y; is(y, R(2 * a.p, a.q), "+= itself", a, a); y = x; y -= y; is(y, R(0), "-= itself", a, a); y = x; y *= y; is(y, R(a.p * a.p, a.q * a.q), "*= itself", a, a); if (p) { y = x; y /= y; is(y, R(1), "/= itself", a, a); is(x.reciprocal(), R(a.q, a.p), "reciprocal", a, a); } is(am::identityOf(x), R(1), "identity", a, a); is(am::zeroOf(x), R(0), "zero", a, a); is(F((T)p), R(p), "conversion", a, a); is(am::absT(x), R(a.p < 0 ? -a.p : a.p, a.q), "absolute value", a, a); F z((T)p); z.q = (T)q; z.reduce(); is(z, a, "reduce", a, a); { ll P = 1, Q = 1; for (int e = 0; e < 5; e++, P *= a.p, Q *= a.q) is(am::powT(x, e), R(P, Q), "power", a, R(e)); }
    for (int r = -N; r <= N; r++) for (int s = -N; s <= N; s++) if (s) { mc::op(); R b(r, s); F w((T)r, (T)s); ll c = a.p * b.q - b.p * a.q; MC_CHECK((x == w) == (c == 0) && (x != w) == (c != 0) && (x < w) == (c < 0) && (x <= w) == (c <= 0) && (x > w) == (c > 0) && (x >= w) == (c >= 0), "comparison of %d/%d and %d/%d", p, q, r, s); ll g = (ll)x.cmp(w); MC_CHECK((g < 0) == (c < 0) && (g > 0) == (c > 0), "cmp of %d/%d and %d/%d is %lld", p, q, r, s, g);
        R sum(a.p * b.q + b.p * a.q, a.q * b.q), dif(a.p * b.q - b.p * a.q, a.q * b.q), pr(a.p * b.p, a.q * b.q); is(x + w, sum, "sum", a, b); is(x - w, dif, "difference", a, b); is(x * w, pr, "product", a, b); F t = x; t += w; is(t, sum, "+=", a, b); t = x; t -= w; is(t, dif, "-=", a, b); t = x; t *= w; is(t, pr, "*=", a, b); if (r) { R qu(a.p * b.q, a.q * b.p); is(x / w, qu, "quotient", a, b); t = x; t /= w; is(t, qu, "/=", a, b); is(x % w, R(0), "remainder", a, b); t = x; t %= w; is(t, R(0), "%=", a, b); is(x - w * (x / w), R(0), "division law", a, b); } }
}
static void fraction_int() { fractions_t<int>(); } static void fraction_int64() { fractions_t<int64_t>(); }
// ---- quadratic extensions over a coefficient domain
template<int Q> struct Con { typedef am::modulo<int, Q, am::modulo_storage::CONSTANT> T; static const int P = Q; static T mk(int x) { return T(x); } static ll val(const T& t) { return t.v; } static const int lo = 0, hi = Q - 1; };
template<int Q> struct Inst { typedef am::moduloX<int> T; static const int P = Q; static T mk(int x) { return T(x, Q); } static ll val(const T& t) { MC_CHECK(t.M() == Q, "coefficient with modulus %d", t.M()); return t.v; } static const int lo = 0, hi = Q - 1; };
struct IntD { typedef int T; static const int P = 0; static T mk(int x) { return x; } static ll val(const T& t) { return t; } static const int lo = -3, hi = 3; };
struct DblD { typedef double T; static const int P = 0; static T mk(int x) { return x; } static ll val(const T& t) { MC_CHECK(t == (ll)t, "inexact coefficient %g", t); return (ll)t; } static const int lo = -3, hi = 3; };
static ll md(ll x, int P) { return P ? (x % P + P) % P : x; }
struct Z2 { ll a, b; };
template<class D, class Q> struct QT {
    static Q mk(int a, int b, int d) { return Q(D::mk(a), D::mk(b), D::mk(d)); }
    static void eq(const Q& q, ll a, ll b, int d, const char* what, Z2 x, Z2 y) { MC_CHECK(D::val(q.a) == md(a, D::P) && D::val(q.b) == md(b, D::P), "%s of %lld%+lldr and %lld%+lldr (r^2 = %d, modulus %d) is %lld%+lldr, expected %lld%+lldr", what, x.a, x.b, y.a, y.b, d, D::P, D::val(q.a), D::val(q.b), md(a, D::P), md(b, D::P)); MC_CHECK(D::val(typename D::T(q.D())) == md(d, D::P), "%s changed r^2 to %lld", what, D::val(typename D::T(q.D()))); }
    static void run(int d) {
        const int n = D::hi - D::lo + 1; int a = D::lo + mc::choose(n), b = D::lo + mc::choose(n); mc::state(mc::hash(a, b, d, D::P, sizeof(Q))); Z2 xa{a, b}; mc::trace("all partners of %d%+dr, r^2 = %d, modulus %d", a, b, d, D::P); Q x = mk(a, b, d);
        eq(x, a, b, d, "construction", xa, xa); eq(-x, -a, -b, d, "negation", xa, xa); eq(x.conjugate(), a, -b, d, "conjugate", xa, xa); eq(am::conjugateT<Q>::of(x), a, -b, d, "conjugate", xa, xa); MC_CHECK(D::val(x.norm()) == md((ll)a * a - (ll)b * b * d, D::P), "norm of %d%+dr is %lld", a, b, D::val(x.norm())); eq(am::identityOf(x), 1, 0, d, "identity", xa, xa); eq(am::zeroOf(x), 0, 0, d, "zero", xa, xa); eq(am::castOf(x, D::mk(2)), 2, 0, d, "conversion", xa, xa); { Q c = am::castOf(mk(0, 1, d), x); eq(c, a, b, d, "conversion", xa, xa); }
        { Q y = x; y += y; eq(y, 2 * a, 2 * b, d, "+= itself", xa, xa); y = x; y -= y; eq(y, 0, 0, d, "-= itself", xa, xa); y = x; y *= y; eq(y, a * a + b * b * d, 2 * a * b, d, "*= itself", xa, xa); y = x; y = y; eq(y, a, b, d, "self-assignment", xa, xa); y = x; y *= y.a; eq(y, a * a, a * b, d, "*= its own a", xa, xa); y = x; y *= y.b; eq(y, a * b, b * b, d, "*= its own b", xa, xa); }
        auto unit = [&](ll v) { v = md(v, D::P); return D::P ? gcdl(v, D::P) == 1 : v == 1 || v == -1; }; if (unit(a)) { Q y = x; y /= y.a; y *= D::mk(a); eq(y, a, b, d, "/= its own a", xa, xa); } if (unit(b)) { Q y = x; y /= y.b; y *= D::mk(b); eq(y, a, b, d, "/= its own b", xa, xa); }
        { ll p = 1, q = 0; for (int e = 0; e < 5; e++) { eq(am::powT(x, e), p, q, d, "power", xa, Z2{e, 0}); ll np = p * a + q * b * d, nq = p * b + q * a; p = md(np, D::P); q = md(nq, D::P); } }
        for (int s = D::lo; s <= D::hi; s++) { typename D::T k = D::mk(s); eq(x * k, a * s, b * s, d, "scalar product", xa, Z2{s, 0}); Q y = x; y *= k; eq(y, a * s, b * s, d, "scalar *=", xa, Z2{s, 0}); Q m = mk(a * s, b * s, d); if (D::P ? unit(s) : s != 0) { eq(m / k, a, b, d, "scalar quotient", xa, Z2{s, 0}); m /= k; eq(m, a, b, d, "scalar /=", xa, Z2{s, 0}); } }
        for (int u = D::lo; u <= D::hi; u++) for (int v = D::lo; v <= D::hi; v++) { mc::op(); Z2 ya{u, v}; Q y = mk(u, v, d); eq(x + y, a + u, b + v, d, "sum", xa, ya); eq(x - y, a - u, b - v, d, "difference", xa, ya); ll pa = (ll)a * u + (ll)b * v * d, pb = (ll)a * v + (ll)b * u; eq(x * y, pa, pb, d, "product", xa, ya); Q t = x; t += y; eq(t, a + u, b + v, d, "+=", xa, ya); t = x; t -= y; eq(t, a - u, b - v, d, "-=", xa, ya); t = x; t *= y; eq(t, pa, pb, d, "*=", xa, ya);
            ll c = a != u ? (a < u ? -1 : 1) : b != v ? (b < v ? -1 : 1) : 0; MC_CHECK((x == y) == !c && (x != y) == !!c && (x < y) == (c < 0) && (x > y) == (c > 0) && (x <= y) == (c <= 0) && (x >= y) == (c >= 0), "comparison of %d%+dr and %d%+dr", a, b, u, v);
            ll nm = md((ll)u * u - (ll)v * v * d, D::P); if (D::P ? unit(nm) : nm != 0) { Q p = x * y; eq(p / y, a, b, d, "exact quotient", Z2{pa, pb}, ya); t = p; t /= y; eq(t, a, b, d, "exact /=", Z2{pa, pb}, ya); eq(p % y, 0, 0, d, "exact remainder", Z2{pa, pb}, ya); t = p; t %= y; eq(t, 0, 0, d, "exact %=", Z2{pa, pb}, ya); if (D::P) { Q z = (x / y) * y; eq(z, a, b, d, "quotient times divisor", xa, ya); } else if (std::is_integral<typename D::T>::value) { Q z = (x / y) * y + x % y; eq(z, a, b, d, "quotient times divisor plus remainder", xa, ya); } } }
    }
};
template<class D, class Q> struct QStat { static void run(std::vector<int> ds) { int d = ds[mc::choose((int)ds.size())]; auto old = Q::D(); Q::D() = D::mk(d); QT<D, Q>::run(d); Q::D() = old; } };
static void quad_cplx2() { QT<Con<2>, am::complex<Con<2>::T>>::run(-1); } static void quad_cplx3() { QT<Con<3>, am::complex<Con<3>::T>>::run(-1); } static void quad_cplx7() { QT<Con<7>, am::complex<Con<7>::T>>::run(-1); } static void quad_gauss() { QT<IntD, am::complex<int>>::run(-1); } static void quad_cplxd() { QT<DblD, am::complex<double>>::run(-1); }
static void quad_const5() { QT<IntD, am::quadratic<int, 5, am::quadratic_storage::CONSTANT>>::run(5); } static void quad_static() { QStat<IntD, am::quadratic<int, 5>>::run({5, -1, 2, -3}); } static void quad_static_mod() { QStat<Con<5>, am::quadratic<Con<5>::T, 2>>::run({2, 3}); } static void quad_default() { QT<IntD, am::quadratic<int, 3>>::run(3); MC_CHECK((am::quadratic<int, 3>(7).b == 0 && am::quadratic<int, 3>().a == 0), "default"); }
static void quad_inst_int() { int d[] = {-1, 0, 2, 4, -5}; QT<IntD, am::quadraticX<int>>::run(d[mc::choose(5)]); } static void quad_inst_mod() { int d = mc::choose(5); QT<Inst<5>, am::quadraticX<am::moduloX<int>>>::run(d); } static void quad_inst_con() { int d = mc::choose(3); QT<Con<3>, am::quadraticX<Con<3>::T>>::run(d); }
// ---- values with infinity
template<class W, class MK> static void winf_t(int n, MK mk) {
    typedef decltype(W().v) T; int i = mc::choose(n + 1), j = mc::choose(n + 1); mc::state(mc::hash(i, j, n)); mc::op(); bool ai = i == n, bi = j == n; auto mkw = [&](int k, int inf) { return W(mk(k), inf); }; int vs = ai || bi ? 3 : 1; if (vs > n) vs = n; T z0 = am::zeroOf(mk(0)), e1 = am::identityOf(mk(0));
    auto fin = [&](const W& w, const T& v, const char* what) { MC_CHECK(!w.is_inf && w.v == v, "%s of values %d and %d (%d is infinity) is %s", what, i, j, n, w.is_inf ? "infinite" : "wrong"); }; auto inf = [&](const W& w, const char* what) { MC_CHECK(w.is_inf, "%s of values %d and %d (%d is infinity) is not infinite", what, i, j, n); MC_CHECK(am::infinityT<W>::is(w), "infinityT"); };
    for (int va = 0; va < (ai ? vs : 1); va++) for (int vb = 0; vb < (bi ? vs : 1); vb++) { W x = ai ? mkw(va, 1) : mkw(i, 0), y = bi ? mkw(vb, 1) : mkw(j, 0); T a = x.v, b = y.v; bool a0 = !ai && a == z0, b0 = !bi && b == z0;
        if (ai) { inf(-x, "negation"); fin(x.inverse(), z0, "inverse"); inf(am::conjugateT<W>::of(x), "conjugate"); } else { fin(-x, T(-a), "negation"); fin(am::conjugateT<W>::of(x), am::conjugateT<T>::of(a), "conjugate"); if (a0) inf(x.inverse(), "inverse"); else fin(x.inverse(), T(e1 / a), "inverse"); MC_CHECK(!am::infinityT<W>::is(x), "infinityT"); }
        fin(am::zeroOf(x), z0, "zero"); fin(am::identityOf(x), e1, "identity"); { W w = am::castOf(x, y); MC_CHECK(w == y, "conversion"); } { W t = x; t = t; MC_CHECK(t == x, "self-assignment"); }
        W s = x, d = x, m = x, q = x; s += y; d -= y; m *= y; q /= y; if (ai || bi) { inf(s, "+="); inf(x + y, "sum"); if (!(ai && bi)) { inf(d, "-="); inf(x - y, "difference"); } } else { fin(s, T(a + b), "+="); fin(x + y, T(a + b), "sum"); fin(d, T(a - b), "-="); fin(x - y, T(a - b), "difference"); }
        if (ai || bi) { if (!a0 && !b0) { inf(m, "*="); inf(x * y, "product"); } } else { fin(m, T(a * b), "*="); fin(x * y, T(a * b), "product"); }
        if (ai) { if (!bi) { inf(q, "/="); inf(x / y, "quotient"); } } else if (bi) { fin(q, z0, "/="); fin(x / y, z0, "quotient"); } else if (b0) { if (!a0) { inf(q, "/="); inf(x / y, "quotient"); } } else { fin(q, T(a * (e1 / b)), "/="); fin(x / y, T(a * (e1 / b)), "quotient"); }
        if (ai != bi) MC_CHECK(!(x == y) && x != y && (x < y) == bi && (x > y) == ai && (x <= y) == bi && (x >= y) == ai, "comparison of %d and %d", i, j); else if (!ai) MC_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (b < a) && (x <= y) == !(b < a) && (x >= y) == !(a < b), "comparison of %d and %d", i, j);
        W e = x; if (!ai) { e = x; e += e; fin(e, T(a + a), "+= itself"); e = x; e *= e; fin(e, T(a * a), "*= itself"); if (!a0) { e = x; e /= e; fin(e, e1, "/= itself"); } e = x; e -= e; fin(e, z0, "-= itself"); } else { e *= e; inf(e, "*= itself"); e = x; e += e; inf(e, "+= itself"); } }
}
typedef am::modulo<int, 3, am::modulo_storage::CONSTANT> M3; typedef am::complex<M3> C9; typedef am::modulo<int, 7, am::modulo_storage::CONSTANT> M7; typedef am::complex<M7> C49; typedef am::modulo<int, 11, am::modulo_storage::CONSTANT> M11;
static C9 c9(int k) { return C9(M3(k % 3), M3(k / 3)); } static C49 c49(int k) { return C49(M7(k % 7), M7(k / 7)); }
static void winf_gf9() { winf_t<am::with_infinity<C9>>(9, c9); } static void winf_gf49() { winf_t<am::with_infinity<C49>>(49, c49); } static void winf_mod() { winf_t<am::with_infinity<M11>>(11, [](int k) { return M11(k); }); } static void winf_dbl() { winf_t<am::with_infinity<double>>(15, [](int k) { return k == 0 ? 0.0 : (k & 1 ? 1 : -1) * std::ldexp(1.0, ((k - 1) / 2 - 3) * 200); }); } static void winf_frac() { winf_t<am::with_infinity<am::fraction<int>>>(21, [](int k) { return am::fraction<int>(k % 7 - 3, k / 7 + 1); }); }
// ---- Moebius transformations over GF(9) as mappings of its ten points
typedef am::with_infinity<C9> W9; typedef am::moebius_tr<W9> Mo;
static int idx(const W9& w) { return w.is_inf ? 9 : w.v.a.v + 3 * w.v.b.v; } static W9 pt(int k, int junk = 0) { return k == 9 ? W9(c9(junk), 1) : W9(c9(k)); }
struct Tab { C9 m[9][9], s[9][9]; int mul[9][9], add[9][9], cj[9], inv[9], neg[9]; Tab() { for (int i = 0; i < 9; i++) { cj[i] = i % 3 + 3 * ((3 - i / 3) % 3); neg[i] = (3 - i % 3) % 3 + 3 * ((3 - i / 3) % 3); for (int j = 0; j < 9; j++) { int a = i % 3, b = i / 3, c = j % 3, d = j / 3; add[i][j] = (a + c) % 3 + 3 * ((b + d) % 3); mul[i][j] = (a * c + 2 * b * d) % 3 + 3 * ((a * d + b * c) % 3); if (mul[i][j] == 1) inv[i] = j; } } } };
static const Tab& tab() { static Tab t; return t; }
struct Mx { int a, b, c, d, s; };
static int apply(const Mx& m, int z) { const Tab& t = tab(); if (z == 9) return m.c == 0 ? 9 : t.mul[m.a][t.inv[m.c]]; if (m.s < 0) z = t.cj[z]; int n = t.add[t.mul[m.a][z]][m.b], d = t.add[t.mul[m.c][z]][m.d]; return d == 0 ? 9 : t.mul[n][t.inv[d]]; }
static int det(const Mx& m) { const Tab& t = tab(); return t.add[t.mul[m.a][m.d]][t.neg[t.mul[m.b][m.c]]]; }
static Mo mo(const Mx& m) { return Mo(W9(c9(m.a)), W9(c9(m.b)), W9(c9(m.c)), W9(c9(m.d)), m.s); }
static bool normal(const Mx& m) { return m.a == 1 || (m.a == 0 && m.b == 1); }
static std::vector<Mx> others() { std::vector<Mx> r; for (int s : {1, -1}) for (int a = 0; a < 9; a++) for (int b = 0; b < 9; b++) for (int c = 0; c < 9; c++) for (int d = 0; d < 9; d++) { Mx m{a, b, c, d, s}; if (det(m) == 0) continue; if (mc::thorough() ? normal(m) : (a * 729 + b * 81 + c * 9 + d) % 101 < 2 && (a + b + c + d) % 2) r.push_back(m); } return r; }
#define MXF "(%d z + %d)/(%d z + %d) s=%d"
#define MXA(m) (m).a, (m).b, (m).c, (m).d, (m).s
static void moebius_group() {
    Mx m; m.s = mc::choose(2) ? -1 : 1; m.a = mc::choose(9); m.b = mc::choose(9); m.c = mc::choose(9); m.d = mc::choose(9); if (det(m) == 0) return; mc::state(mc::hash(m.a, m.b, m.c, m.d, m.s)); mc::op(); mc::trace("transformation " MXF " over GF(9)", MXA(m)); Mo t = mo(m); const Mo& ct = t;
    for (int z = 0; z < 10; z++) for (int j = 0; j < (z == 9 ? 3 : 1); j++) { int g = idx(ct(pt(z, j * 4))); MC_CHECK(g == apply(m, z), MXF " at %d is %d, expected %d", MXA(m), z, g, apply(m, z)); }
    Mo inv = t.inverse(); for (int z = 0; z < 10; z++) MC_CHECK(idx(inv(t(pt(z)))) == z && idx(t(inv(pt(z)))) == z, "inverse of " MXF " at %d", MXA(m), z); MC_CHECK(inv.s == m.s, "inverse of " MXF " has s=%d", MXA(m), inv.s);
    Mo n = t; Mo& nr = n.normalize(); MC_CHECK(&nr == &n, "normalize does not return itself"); for (int z = 0; z < 10; z++) MC_CHECK(idx(n(pt(z))) == apply(m, z), "normal form of " MXF " at %d is %d", MXA(m), z, idx(n(pt(z)))); MC_CHECK(m.a ? n.a == W9(c9(1)) : n.a == W9(c9(0)) && n.b == W9(c9(1)), "normal form of " MXF, MXA(m)); for (int k = 1; k < 9; k++) { const Tab& tb = tab(); Mx sc{tb.mul[m.a][k], tb.mul[m.b][k], tb.mul[m.c][k], tb.mul[m.d][k], m.s}; Mo q = mo(sc); q.normalize(); MC_CHECK(q == n, "normal forms of " MXF " and its multiple by %d differ", MXA(m), k); }
    MC_CHECK(t == mo(m) && !(t != mo(m)) && !(t < mo(m)) && t <= t && t >= t && !(t > t), "comparison with itself"); Mo e = am::identityOf(t); for (int z = 0; z < 10; z++) MC_CHECK(idx(e(pt(z))) == z, "identity at %d", z); { Mo q = t; q *= q; for (int z = 0; z < 10; z++) MC_CHECK(idx(q(pt(z))) == apply(m, apply(m, z)), "square of " MXF " at %d", MXA(m), z); q = t; q /= q; for (int z = 0; z < 10; z++) MC_CHECK(idx(q(pt(z))) == z, MXF " over itself at %d", MXA(m), z); q = t; q = am::castOf(e, t); MC_CHECK(q == t, "conversion"); int f[10], g[10]; for (int z = 0; z < 10; z++) g[z] = z; for (int k = 0; k < 4; k++) { Mo p = am::powT(t, k); for (int z = 0; z < 10; z++) MC_CHECK(idx(p(pt(z))) == g[z], "power %d of " MXF " at %d", k, MXA(m), z); for (int z = 0; z < 10; z++) f[z] = apply(m, g[z]); std::copy(f, f + 10, g); } }
    if (mc::thorough() && !normal(m)) return; static const std::vector<Mx> ot = others();
    for (const Mx& o : ot) { mc::op(); Mo u = mo(o); Mo p = t * u, q = t; q *= u; MC_CHECK(p == q, "*= differs from *"); MC_CHECK(p.s == m.s * o.s, "s of a product"); for (int z = 0; z < 10; z++) MC_CHECK(idx(p(pt(z))) == apply(m, apply(o, z)), "product of " MXF " and " MXF " at %d is %d, expected %d", MXA(m), MXA(o), z, idx(p(pt(z))), apply(m, apply(o, z))); Mo d = t / u; for (int z = 0; z < 10; z++) MC_CHECK(idx(d(pt(apply(o, z)))) == apply(m, z), "quotient of " MXF " and " MXF " at the image of %d", MXA(m), MXA(o), z);
        int c = 0; int x[5] = {m.a, m.b, m.c, m.d, m.s}, y[5] = {o.a, o.b, o.c, o.d, o.s}; for (int i = 0; i < 5 && !c; i++) { int xa = x[i], ya = y[i]; if (i < 4) { xa = x[i] % 3 * 3 + x[i] / 3; ya = y[i] % 3 * 3 + y[i] / 3; } c = xa < ya ? -1 : xa > ya; } MC_CHECK((t == u) == !c && (t != u) == !!c && (t < u) == (c < 0) && (t > u) == (c > 0) && (t <= u) == (c <= 0) && (t >= u) == (c >= 0), "comparison of " MXF " and " MXF, MXA(m), MXA(o)); }
}
static void moebius_named() { int k = mc::choose(9), z = mc::choose(10); mc::state(mc::hash(k, z)); mc::op(); const Tab& t = tab(); W9 c(c9(k)), id(c9(1)); auto ck = [&](const Mo& m, int want, const char* what) { MC_CHECK(idx(m(pt(z))) == want, "%s(%d) at %d is %d, expected %d", what, k, z, idx(m(pt(z))), want); }; if (k) { ck(Mo::scaling(c), z == 9 ? 9 : t.mul[k][z], "scaling"); ck(Mo::rotation(c), z == 9 ? 9 : t.mul[k][z], "rotation"); } ck(Mo::translation(c), z == 9 ? 9 : t.add[k][z], "translation"); ck(Mo::flip_x(), z == 9 ? 9 : t.neg[t.cj[z]], "flip_x"); ck(Mo::flip_y(), z == 9 ? 9 : t.cj[z], "flip_y"); ck(Mo::inversion(), z == 9 ? 0 : z == 0 ? 9 : t.inv[t.cj[z]], "inversion"); ck(Mo::flip_x(id), z == 9 ? 9 : t.neg[t.cj[z]], "flip_x"); ck(Mo::flip_y(id), z == 9 ? 9 : t.cj[z], "flip_y"); ck(Mo::inversion(id), z == 9 ? 0 : z == 0 ? 9 : t.inv[t.cj[z]], "inversion"); if (k) { ck(Mo(c), z == 9 ? 9 : t.mul[k][z], "construction from a value"); ck(am::castOf<Mo>(c), z == 9 ? 9 : t.mul[k][z], "conversion"); ck(am::castOf(Mo(id), c), z == 9 ? 9 : t.mul[k][z], "conversion"); } std::vector<Mo> nm{Mo::translation(c), Mo::flip_x(), Mo::flip_y(id), Mo::inversion()}; if (k) { nm.push_back(Mo::scaling(c)); nm.push_back(Mo::rotation(c)); nm.push_back(Mo(c)); } for (size_t i = 0; i < nm.size(); i++) { MC_CHECK(idx(nm[i].inverse()(nm[i](pt(z)))) == z, "inverse of named transformation %d(%d) at %d", (int)i, k, z); for (size_t j = 0; j < nm.size(); j++) { Mo p = nm[i] * nm[j], q = nm[i] / nm[j]; MC_CHECK(idx(p(pt(z))) == idx(nm[i](nm[j](pt(z)))), "product of named transformations %d and %d (%d) at %d", (int)i, (int)j, k, z); MC_CHECK(idx(q(nm[j](pt(z)))) == idx(nm[i](pt(z))), "quotient of named transformations %d and %d (%d) at %d", (int)i, (int)j, k, z); MC_CHECK((nm[i] == nm[j]) == !(nm[i] != nm[j]) && (i != j || nm[i] == nm[j]), "comparison of named transformations"); } } Mo d(2); if (z < 9) { ck(d, t.mul[2][z], "construction from an integer"); ck(am::zeroOf(d), 0, "zero"); } }
template<class T> static void moebius_real_t() { typedef am::moebius_tr<T> MR; int a = mc::choose(5) - 2, b = mc::choose(5) - 2, c = mc::choose(5) - 2, d = mc::choose(5) - 2; if (a * d == b * c) return; mc::state(mc::hash(a, b, c, d, sizeof(T))); MR m((T)a, (T)b, (T)c, (T)d), inv = m.inverse(); T INF = std::numeric_limits<T>::infinity();
    for (int z2 = -4; z2 <= 5; z2++) { mc::op(); bool iz = z2 == 5; T z = iz ? INF : (T)z2 / 2; int n = iz ? a : a * z2 + 2 * b, e = iz ? c : c * z2 + 2 * d; T w = m(z); if (e == 0) { MC_CHECK(std::isinf(w), "(%d z + %d)/(%d z + %d) at %g is %g", a, b, c, d, (double)z, (double)w); } else { MC_CHECK(std::abs(w - (T)n / e) < 1e-4, "(%d z + %d)/(%d z + %d) at %g is %g, expected %g", a, b, c, d, (double)z, (double)w, (double)n / e); if (!iz) { T back = inv(w); MC_CHECK(std::abs(back - z) < 1e-3, "inverse of (%d z + %d)/(%d z + %d) at %g is %g", a, b, c, d, (double)w, (double)back); } } MC_CHECK(am::infinityT<T>::is(z) == iz, "infinityT of %g", (double)z); } }
static void moebius_real() { moebius_real_t<double>(); } static void moebius_realf() { moebius_real_t<float>(); } static void moebius_reall() { moebius_real_t<long double>(); }
// ---- double-width integers
template<class U> struct Wide { typedef unsigned __int128 type; };
template<class U> struct Intr { U adc(U x, U y, int& c) const { unsigned __int128 s = (unsigned __int128)x + y + (c ? 1 : 0); c = (int)((s >> (sizeof(U) * 8)) & 1); return (U)s; } U sbb(U x, U y, int& c) const { unsigned __int128 s = (unsigned __int128)x - y - (c ? 1 : 0); c = (int)((s >> (sizeof(U) * 8)) & 1); return (U)s; } U umul(U x, U y, U* hi) const { unsigned __int128 p = (unsigned __int128)x * y; *hi = (U)(p >> (sizeof(U) * 8)); return (U)p; } };
typedef am::prim_int<int8_t, uint8_t, Intr<uint8_t>> P8; typedef am::double_int<P8> D16; typedef am::double_int<D16> D32; typedef am::double_int<D32> D64; typedef am::prim_int<int16_t, uint16_t, Intr<uint16_t>> P16; typedef am::double_int<P16> E32; typedef am::prim_int<int32_t, uint32_t, Intr<uint32_t>> P32; typedef am::double_int<P32> E64; typedef am::double_int<E64> E128; typedef am::prim_int<int64_t, uint64_t, Intr<uint64_t>> P64; typedef am::double_int<P64> F128; typedef am::double_int<F128> F256; typedef am::double_int<F256> F512;
const int NW = 16; // reference: 1024 bits
struct Big { uint64_t w[NW]; Big() { memset(w, 0, sizeof w); } };
static bool operator==(const Big& a, const Big& b) { return !memcmp(a.w, b.w, sizeof a.w); }
template<class S, class U, class I> static void put(const am::prim_int<S, U, I>& x, Big& b, int off) { uint64_t v = (U)x.v; b.w[off / 64] |= v << (off % 64); }
template<class T> static void put(const am::double_int<T>& x, Big& b, int off) { put(x.lo, b, off); put(x.hi, b, off + T::type_bits); }
template<class X> static Big get(const X& x) { Big b; put(x, b, 0); return b; }
template<class X> struct Mk; template<class S, class U, class I> struct Mk<am::prim_int<S, U, I>> { static am::prim_int<S, U, I> of(const Big& b, int off) { return am::prim_int<S, U, I>((U)(b.w[off / 64] >> (off % 64))); } }; template<class T> struct Mk<am::double_int<T>> { static am::double_int<T> of(const Big& b, int off) { return am::double_int<T>(Mk<T>::of(b, off + T::type_bits), Mk<T>::of(b, off)); } };
static Big mask(Big b, int bits) { for (int i = 0; i < NW; i++) if (i * 64 >= bits) b.w[i] = 0; else if (bits - i * 64 < 64) b.w[i] &= (1ull << (bits - i * 64)) - 1; return b; }
static bool bit(const Big& b, int i) { return b.w[i / 64] >> (i % 64) & 1; }
static Big sext(Big b, int bits) { if (bit(b, bits - 1)) for (int i = 0; i < NW; i++) { if (i * 64 >= bits) b.w[i] = ~0ull; else if (bits - i * 64 < 64) b.w[i] |= ~((1ull << (bits - i * 64)) - 1); } return b; }
static Big add(const Big& a, const Big& b, int cin = 0) { Big r; unsigned __int128 c = cin; for (int i = 0; i < NW; i++) { c += (unsigned __int128)a.w[i] + b.w[i]; r.w[i] = (uint64_t)c; c >>= 64; } return r; }
static Big inv(Big a) { for (auto& x : a.w) x = ~x; return a; } static Big sub(const Big& a, const Big& b, int cin = 0) { return add(a, inv(b), !cin); } static Big neg(const Big& a) { return sub(Big(), a); }
static Big mul(const Big& a, const Big& b) { Big r; int na = NW, nb = NW; while (na && !a.w[na - 1]) na--; while (nb && !b.w[nb - 1]) nb--; for (int i = 0; i < na; i++) { unsigned __int128 c = 0; for (int j = 0; i + j < NW && (j < nb || c); j++) { c += (unsigned __int128)a.w[i] * (j < nb ? b.w[j] : 0) + r.w[i + j]; r.w[i + j] = (uint64_t)c; c >>= 64; } } return r; }
static Big shl(const Big& a, int k) { Big r; for (int i = NW - 1; i >= 0; i--) { int s = i - k / 64; if (s < 0) continue; r.w[i] = a.w[s] << (k % 64); if (k % 64 && s) r.w[i] |= a.w[s - 1] >> (64 - k % 64); } return r; }
static Big sar(const Big& a, int k) { Big r; uint64_t f = bit(a, NW * 64 - 1) ? ~0ull : 0; for (int i = 0; i < NW; i++) { int s = i + k / 64; uint64_t lo = s < NW ? a.w[s] : f, hi = s + 1 < NW ? a.w[s + 1] : f; r.w[i] = k % 64 ? (lo >> (k % 64)) | (hi << (64 - k % 64)) : lo; } return r; }
static int ucmp(const Big& a, const Big& b) { for (int i = NW - 1; i >= 0; i--) if (a.w[i] != b.w[i]) return a.w[i] < b.w[i] ? -1 : 1; return 0; }
static int scmp(const Big& a, const Big& b) { bool x = bit(a, NW * 64 - 1), y = bit(b, NW * 64 - 1); if (x != y) return x ? -1 : 1; return ucmp(a, b); }
static std::string hex(const Big& b, int bits) { std::string s; for (int i = bits / 4 - 1; i >= 0; i--) s += "0123456789abcdef"[b.w[i / 16] >> (i % 16 * 4) & 15]; return s; }
static Big small(ll v) { Big b; b.w[0] = (uint64_t)v; if (v < 0) for (int i = 1; i < NW; i++) b.w[i] = ~0ull; return b; }
template<class X> struct DI {
    static const int B = X::type_bits;
    static X mk(const Big& b) { return Mk<X>::of(b, 0); }
    __attribute__((noinline)) static void eq(const X& g, const Big& w, const char* what, const Big& a, const Big& b) { Big x = get(g), m = mask(w, B); if (!(x == m)) mc::fail("%d bits: %s of %s and %s is %s, expected %s", B, what, hex(a, B).c_str(), hex(b, B).c_str(), hex(x, B).c_str(), hex(m, B).c_str()); }
    static void unary(const Big& a) { mc::op(); X x = mk(a); const X& cx = x; Big s = sext(a, B); eq(x, a, "construction", a, a); eq(-cx, neg(a), "negation", a, a); eq(+cx, a, "plus", a, a); eq(~cx, inv(a), "complement", a, a); X y = x; y.negate(); eq(y, neg(a), "negate", a, a); y = x; eq(++y, add(a, small(1)), "++x", a, a); y = x; eq(--y, sub(a, small(1)), "--x", a, a); y = x; eq(y++, a, "x++", a, a); eq(y, add(a, small(1)), "x after x++", a, a); y = x; eq(y--, a, "x--", a, a); eq(y, sub(a, small(1)), "x after x--", a, a);
        y = x; y += y; eq(y, add(a, a), "+= itself", a, a); y = x; y -= y; eq(y, Big(), "-= itself", a, a); y = x; y *= y; eq(y, mul(a, a), "*= itself", a, a); y = x; y &= y; eq(y, a, "&= itself", a, a); y = x; y |= y; eq(y, a, "|= itself", a, a); y = x; y ^= y; eq(y, Big(), "^= itself", a, a); if (!(a == Big())) { y = x; y /= y; eq(y, small(1), "/= itself", a, a); y = x; y %= y; eq(y, Big(), "%= itself", a, a); } MC_CHECK(cx.is_negative() == bit(a, B - 1), "is_negative of %s", hex(a, B).c_str()); int lz = 0; while (lz < B && !bit(a, B - 1 - lz)) lz++; MC_CHECK(cx.leading_zeros_count() == lz, "leading_zeros_count of %s is %d", hex(a, B).c_str(), cx.leading_zeros_count()); MC_CHECK(cx.to_uint64() == a.w[0], "to_uint64 of %s is %llx", hex(a, B).c_str(), (unsigned long long)cx.to_uint64()); MC_CHECK(cx.to_string16() == hex(a, B), "to_string16 of %s is %s", hex(a, B).c_str(), cx.to_string16().c_str());
        for (int k = 0; k <= shmax(); k++) { if (B > 128 && k % 32 > 1 && k % 32 < 31) continue; Big K = small(k); eq(cx << k, shl(a, k), "left shift", a, K); eq(cx >> k, sar(s, k), "right shift", a, K); y = x; y <<= k; eq(y, shl(a, k), "<<=", a, K); y = x; y >>= k; eq(y, sar(s, k), ">>=", a, K); y = x; y.assign_unsigned_shr(k); eq(y, sar(a, k), "unsigned shift", a, K); if (k > 0) { y = x; y.assign_extended_shr(k, -1); eq(y, sar(sext1(a), k), "extended shift of ones", a, K); y = x; y.assign_extended_shr(k, 0); eq(y, sar(a, k), "extended shift of zeros", a, K); } } }
    static Big sext1(Big b) { for (int i = 0; i < NW; i++) { if (i * 64 >= B) b.w[i] = ~0ull; else if (B - i * 64 < 64) b.w[i] |= ~((1ull << (B - i * 64)) - 1); } return b; }
    static int shmax() { return isprim((X*)0) ? B - 1 : B + 2; } template<class S, class U, class I> static bool isprim(am::prim_int<S, U, I>*) { return true; } static bool isprim(void*) { return false; }
    static void binary(const Big& a, const Big& b, bool div) { mc::op(); X x = mk(a), y = mk(b); const X &cx = x, &cy = y; Big sa = sext(a, B), sb = sext(b, B); int u = ucmp(a, b), s = scmp(sa, sb); if (!((cx == cy) == !u && (cx != cy) == !!u && (cx < cy) == (s < 0) && (cx > cy) == (s > 0) && (cx <= cy) == (s <= 0) && (cx >= cy) == (s >= 0) && cx.unsigned_lt(cy) == (u < 0) && cx.unsigned_gt(cy) == (u > 0) && cx.unsigned_lte(cy) == (u <= 0) && cx.unsigned_gte(cy) == (u >= 0))) mc::fail("%d bits: comparison of %s and %s", B, hex(a, B).c_str(), hex(b, B).c_str());
        eq(cx + cy, add(a, b), "sum", a, b); eq(cx - cy, sub(a, b), "difference", a, b); X t = x; t += y; eq(t, add(a, b), "+=", a, b); t = x; t -= y; eq(t, sub(a, b), "-=", a, b); Big p = mul(a, b); eq(cx * cy, p, "product", a, b); t = x; t *= y; eq(t, p, "*=", a, b); eq(X::unsigned_mul(x, y), p, "unsigned_mul", a, b); { Big f = get(X::unsigned_mul_full(x, y)); if (!(f == p)) mc::fail("%d bits: full product of %s and %s is %s, expected %s", B, hex(a, B).c_str(), hex(b, B).c_str(), hex(f, 2 * B).c_str(), hex(p, 2 * B).c_str()); }
        Big o = a; for (int i = 0; i < NW; i++) o.w[i] = a.w[i] & b.w[i]; eq(cx & cy, o, "and", a, b); t = x; t &= y; eq(t, o, "&=", a, b); for (int i = 0; i < NW; i++) o.w[i] = a.w[i] | b.w[i]; eq(cx | cy, o, "or", a, b); t = x; t |= y; eq(t, o, "|=", a, b); for (int i = 0; i < NW; i++) o.w[i] = a.w[i] ^ b.w[i]; eq(cx ^ cy, o, "xor", a, b); t = x; t ^= y; eq(t, o, "^=", a, b);
        for (int c = 0; c < 2; c++) { int k = c; t = x; t.assign_adc(y, k); Big w = add(a, b, c); eq(t, w, c ? "adc 1" : "adc 0", a, b); if (k != (int)bit(w, B)) mc::fail("%d bits: carry out of %s + %s + %d is %d", B, hex(a, B).c_str(), hex(b, B).c_str(), c, k); k = c; t = x; t.assign_sbb(y, k); w = sub(a, b, c); eq(t, w, c ? "sbb 1" : "sbb 0", a, b); if (k != (int)bit(w, B)) mc::fail("%d bits: borrow out of %s - %s - %d is %d", B, hex(a, B).c_str(), hex(b, B).c_str(), c, k); }
        if (!div || b == Big()) return; { X r, q = X::unsigned_div(x, y, &r); Big Q = get(q), Rr = get(r); if (!(add(mul(Q, b), Rr) == a && ucmp(Rr, b) < 0)) mc::fail("%d bits: unsigned %s / %s is %s remainder %s", B, hex(a, B).c_str(), hex(b, B).c_str(), hex(Q, B).c_str(), hex(Rr, B).c_str()); eq(X::unsigned_div(x, y), Q, "unsigned_div", a, b); Big m = Big(); m.w[(B - 1) / 64] = 1ull << ((B - 1) % 64); if (a == m && sb == small(-1)) return; Big SQ, SR, aa = bit(sa, NW * 64 - 1) ? neg(sa) : sa, ab = bit(sb, NW * 64 - 1) ? neg(sb) : sb; Big qa = get(X::unsigned_div(mk(aa), mk(ab))); SQ = bit(sa, 900) != bit(sb, 900) ? neg(qa) : qa; SR = sub(sa, mul(SQ, sb)); Big ar = sub(aa, mul(qa, ab)); if (ucmp(ar, ab) >= 0) mc::fail("%d bits: unsigned quotient of %s and %s", B, hex(aa, B).c_str(), hex(ab, B).c_str()); eq(cx / cy, SQ, "quotient", a, b); eq(cx % cy, SR, "remainder", a, b); t = x; t /= y; eq(t, SQ, "/=", a, b); t = x; t %= y; eq(t, SR, "%=", a, b); }
    }
    static void conv() { for (ll v : {0ll, 1ll, -1ll, 2ll, -2ll, 127ll, 128ll, -128ll, -129ll, 255ll, 256ll, 300ll, 32767ll, 32768ll, -32768ll, -32769ll, 65535ll, 65536ll, 70000ll, -70000ll, (ll)INT_MAX, (ll)INT_MIN}) { mc::op(); Big w = small(v); eq(X((int)v), w, "conversion from int", small(v), small(v)); if (!isprim((X*)0)) { X x = (int)v; eq(am::zeroOf(x), Big(), "zero", w, w); eq(am::identityOf(x), small(1), "identity", w, w); } } X z; eq(z, Big(), "default", Big(), Big()); }
};
template<class X> static void from_half() { typedef typename X::half_type T; for (int i = 0; i < 256; i++) for (int k = 0; k < T::type_bits; k += 7) { Big b = mask(shl(small(i), k), T::type_bits); mc::op(); DI<X>::eq(X(Mk<T>::of(b, 0)), sext(b, T::type_bits), "conversion from the half type", b, b); } }
static void prim8() { Big a; a.w[0] = (uint64_t)mc::choose(256); mc::state(mc::hash(a.w[0])); mc::trace("8-bit %s with every partner", hex(a, 8).c_str()); typedef DI<P8> K; for (int b = 0; b < 256; b++) { mc::op(); P8 x((uint8_t)a.w[0]), y((uint8_t)b); int8_t sx = (int8_t)a.w[0], sy = (int8_t)b; uint8_t ux = (uint8_t)sx, uy = (uint8_t)sy; auto ck = [&](const P8& r, int w, const char* what) { MC_CHECK(r.v == (int8_t)w, "%s of %d and %d is %d", what, sx, sy, r.v); }; ck(x + y, sx + sy, "sum"); ck(x - y, sx - sy, "difference"); ck(x * y, sx * sy, "product"); ck(x & y, sx & sy, "and"); ck(x | y, sx | sy, "or"); ck(x ^ y, sx ^ sy, "xor"); P8 t = x; ck(t += y, sx + sy, "+="); t = x; ck(t -= y, sx - sy, "-="); t = x; ck(t *= y, sx * sy, "*="); t = x; ck(t &= y, sx & sy, "&="); t = x; ck(t |= y, sx | sy, "|="); t = x; ck(t ^= y, sx ^ sy, "^="); if (sy && !(sx == -128 && sy == -1)) { ck(x / y, sx / sy, "quotient"); ck(x % y, sx % sy, "remainder"); t = x; ck(t /= y, sx / sy, "/="); t = x; ck(t %= y, sx % sy, "%="); } if (uy) { P8 r; ck(P8::unsigned_div(x, y, &r), ux / uy, "unsigned_div"); ck(r, ux % uy, "unsigned remainder"); } ck(P8::unsigned_mul(x, y), ux * uy, "unsigned_mul"); MC_CHECK(P8::unsigned_mul_full(x, y).to_uint64() == (uint64_t)(ux * uy), "full product of %d and %d", ux, uy); MC_CHECK((x == y) == (sx == sy) && (x != y) == (sx != sy) && (x < y) == (sx < sy) && (x > y) == (sx > sy) && (x <= y) == (sx <= sy) && (x >= y) == (sx >= sy) && x.unsigned_lt(y) == (ux < uy) && x.unsigned_gt(y) == (ux > uy) && x.unsigned_lte(y) == (ux <= uy) && x.unsigned_gte(y) == (ux >= uy), "comparison of %d and %d", sx, sy); } P8 x((uint8_t)a.w[0]); K::eq(-x, neg(a), "negation", a, a); K::eq(~x, inv(a), "complement", a, a); P8 y = x; y.negate(); K::eq(y, neg(a), "negate", a, a); y = x; K::eq(y++, a, "x++", a, a); K::eq(y, add(a, small(1)), "x after x++", a, a); y = x; K::eq(++y, add(a, small(1)), "++x", a, a); y = x; K::eq(y--, a, "x--", a, a); K::eq(y, sub(a, small(1)), "x after x--", a, a); for (int k = 0; k < 8; k++) { K::eq(x << k, shl(a, k), "left shift", a, small(k)); K::eq(x >> k, sar(sext(a, 8), k), "right shift", a, small(k)); y = x; y.assign_unsigned_shr(k); K::eq(y, sar(a, k), "unsigned shift", a, small(k)); if (k) { y = x; y.assign_extended_shr(k, -1); K::eq(y, sar(K::sext1(a), k), "extended shift", a, small(k)); } } int lz = 0; while (lz < 8 && !bit(a, 7 - lz)) lz++; MC_CHECK(x.leading_zeros_count() == lz, "leading_zeros_count"); MC_CHECK(x.to_string16() == hex(a, 8) && x.to_uint64() == a.w[0], "output"); DI<P8>::conv(); }
template<class X> static Big pattern(const std::vector<uint64_t>& L, int lb, std::vector<int>& d, bool choose) { Big b; int n = X::type_bits / lb; if (choose) { d.resize(n); for (auto& x : d) x = mc::choose((int)L.size()); } for (int i = 0; i < n; i++) b.w[i * lb / 64] |= L[d[i]] << (i * lb % 64); return b; }
template<class X> static void patterns(std::vector<uint64_t> L, std::vector<uint64_t> L2, int lb, bool full_div) { std::vector<int> d; Big a = pattern<X>(L, lb, d, true); mc::state(mc::H()(X::type_bits).range(d)); mc::trace("%d-bit %s with every partner", X::type_bits, hex(a, X::type_bits).c_str()); DI<X>::unary(a); DI<X>::conv(); std::vector<int> e(X::type_bits / lb, 0); for (;;) { Big b = pattern<X>(L2, lb, e, false); DI<X>::binary(a, b, full_div || e[0] == 1 || d[0] == 1); size_t i = 0; while (i < e.size() && e[i] == (int)L2.size() - 1) e[i++] = 0; if (i == e.size()) break; e[i]++; } }
static inline D16 d16(int v) { return D16(P8((uint8_t)(v >> 8)), P8((uint8_t)v)); } static inline int u16(const D16& x) { return (uint8_t)x.hi.v << 8 | (uint8_t)x.lo.v; }
static void bin16(int a, int b, bool div) { // the same checks as DI<D16>::binary, on native integers
    D16 x = d16(a), y = d16(b), t; const D16 &cx = x, &cy = y; int16_t sa = (int16_t)a, sb = (int16_t)b; unsigned p = (unsigned)a * b; bool ok = (cx == cy) == (a == b) && (cx != cy) == (a != b) && (cx < cy) == (sa < sb) && (cx > cy) == (sa > sb) && (cx <= cy) == (sa <= sb) && (cx >= cy) == (sa >= sb) && cx.unsigned_lt(cy) == (a < b) && cx.unsigned_gt(cy) == (a > b) && cx.unsigned_lte(cy) == (a <= b) && cx.unsigned_gte(cy) == (a >= b);
    ok &= u16(cx + cy) == ((a + b) & 65535) && u16(cx - cy) == ((a - b) & 65535) && u16(cx * cy) == (int)(p & 65535) && u16(D16::unsigned_mul(x, y)) == (int)(p & 65535) && D16::unsigned_mul_full(x, y).to_uint64() == p; t = x; t += y; ok &= u16(t) == ((a + b) & 65535); t = x; t -= y; ok &= u16(t) == ((a - b) & 65535); t = x; t *= y; ok &= u16(t) == (int)(p & 65535); ok &= u16(cx & cy) == (a & b) && u16(cx | cy) == (a | b) && u16(cx ^ cy) == (a ^ b);
    for (int c = 0; c < 2; c++) { int k = c; t = x; t.assign_adc(y, k); ok &= u16(t) == ((a + b + c) & 65535) && k == (a + b + c) >> 16; k = c; t = x; t.assign_sbb(y, k); ok &= u16(t) == ((a - b - c) & 65535) && k == (a - b - c < 0); }
    if (div && b) { D16 r; ok &= u16(D16::unsigned_div(x, y, &r)) == a / b && u16(r) == a % b; if (!(sa == -32768 && sb == -1)) ok &= u16(cx / cy) == ((sa / sb) & 65535) && u16(cx % cy) == ((sa % sb) & 65535); }
    mc::op(); if (!ok) { Big A, B; A.w[0] = a; B.w[0] = b; DI<D16>::binary(A, B, true); mc::fail("16 bits: operations on %04x and %04x", a, b); }
}
static void int16() { Big a; int k = mc::choose(256); for (int j = 0; j < 256; j++) { a.w[0] = (uint64_t)(k * 256 + j); mc::state(mc::hash(k, j)); DI<D16>::unary(a); int nb = mc::tier(64, 1024); for (int i = 0; i < nb; i++) { Big b; static const uint8_t lb[32] = {0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff, 0xfe, 0x0f, 0x10, 0xf0, 0xaa, 0x55, 0x40, 0xc0, 5, 7, 9, 11, 13, 17, 19, 0x23, 0x33, 0x66, 0x99, 0xcc, 0xe7, 0xdb, 0xbd, 0x7e}; b.w[0] = nb == 64 ? lb[i % 8] | lb[i / 8] << 8 : lb[i % 32] | lb[i / 32] << 8; bool dv = mc::thorough() || i % 8 == j % 8; int u = (int)a.w[0], v = (int)b.w[0]; bin16(u, v, dv); bin16(v, u, dv); if (i == j % nb) DI<D16>::binary(a, b, true); } } DI<D16>::conv(); from_half<D16>(); }
static void int32_8() { std::vector<uint64_t> L{0, 1, 0x7f, 0x80, 0xff}; if (mc::thorough()) L = {0, 1, 2, 0x7f, 0x80, 0xfe, 0xff}; patterns<D32>(L, L, 8, mc::thorough()); } static void int64_8() { patterns<D64>({0, 0x80, 0xff}, mc::thorough() ? std::vector<uint64_t>{0, 1, 0xff} : std::vector<uint64_t>{0, 0xff}, 8, false); }
static void int32_16() { std::vector<uint64_t> L{0, 1, 2, 0xff, 0x100, 0x7fff, 0x8000, 0x8001, 0xff00, 0xfffe, 0xffff, 0x5555}; patterns<E32>(L, L, 16, true); from_half<E32>(); } static void int64_32() { std::vector<uint64_t> L{0, 1, 2, 3, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 0x55555555}; patterns<E64>(L, L, 32, true); from_half<E64>(); } static void int128_32() { std::vector<uint64_t> L{0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu}; patterns<E128>(L, L, 32, false); from_half<E128>(); }
static void int128_64() { std::vector<uint64_t> L{0, 1, 2, 3, 0xffffffffu, 1ull << 32, (1ull << 63) - 1, 1ull << 63, (1ull << 63) + 1, ~1ull, ~0ull, 0x5555555555555555ull}; patterns<F128>(L, L, 64, true); from_half<F128>(); } static void int256_64() { std::vector<uint64_t> L{0, 1, 1ull << 63, ~0ull}; if (mc::thorough()) L = {0, 1, 1ull << 32, 1ull << 63, ~0ull}; patterns<F256>(L, L, 64, false); from_half<F256>(); } static void int512_64() { patterns<F512>({0, ~0ull}, {0, ~0ull}, 64, false); }
// ---- symbolic expressions
typedef am::symbolic Sy; static const char* OPS[] = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||"};
static Sy bin(int o, const Sy& x, const Sy& y) { switch (o) { case 0: return x + y; case 1: return x - y; case 2: return x * y; case 3: return x / y; case 4: return x % y; case 5: return x & y; case 6: return x | y; case 7: return x ^ y; case 8: return x << y; case 9: return x >> y; case 10: return x && y; default: return x || y; } }
static void asg(int o, Sy& x, const Sy& y) { switch (o) { case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break; case 3: x /= y; break; case 4: x %= y; break; case 5: x &= y; break; case 6: x |= y; break; case 7: x ^= y; break; case 8: x <<= y; break; default: x >>= y; } }
static Sy un(int o, const Sy& x) { switch (o) { case 0: return +x; case 1: return -x; case 2: return ~x; default: return !x; } }
static void expr() { Sy x("x"), y("y"), z("z"); std::string s; int o1 = mc::choose(16), o2 = mc::choose(16), o3 = mc::choose(16); mc::state(mc::hash(o1, o2, o3)); mc::op(); auto step = [&](int o, const Sy& a, const Sy& b, std::string& out) { if (o < 12) { out = "(" + a.v + OPS[o] + b.v + ")"; return bin(o, a, b); } const char* U[] = {"+", "-", "~", "!"}; out = std::string("(") + U[o - 12] + a.v + ")"; return un(o - 12, a); }; Sy a = step(o1, x, y, s); MC_CHECK(a.v == s, "%s, expected %s", a.v.c_str(), s.c_str()); Sy b = step(o2, z, a, s); MC_CHECK(b.v == s, "%s, expected %s", b.v.c_str(), s.c_str()); Sy c = step(o3, a, b, s); MC_CHECK(c.v == s, "%s, expected %s", c.v.c_str(), s.c_str()); MC_CHECK(x.v == "x" && y.v == "y" && z.v == "z", "operand changed"); if (o3 < 10) { Sy d = a; asg(o3, d, b); MC_CHECK(d.v == s, "%s, expected %s", d.v.c_str(), s.c_str()); d = a; asg(o3, d, d); MC_CHECK(d.v == "(" + a.v + OPS[o3] + a.v + ")", "assignment with itself gives %s", d.v.c_str()); } MC_CHECK(am::zeroOf(a).v == "0" && am::identityOf(a).v == "1" && am::castOf<Sy>(-7).v == "-7" && am::castOf(a, 12).v == "12" && am::castOf(x, b).v == b.v && Sy(5).v == "5" && Sy().v == "?", "conversions"); }
MC_SETUP(setup) {
#define A1(f, sh) mc::add(#f, f, sh)
    A1(fraction_int, 1); A1(fraction_int64, 1); A1(quad_cplx2, 1); A1(quad_cplx3, 1); A1(quad_cplx7, 1); A1(quad_gauss, 1); A1(quad_cplxd, 1); A1(quad_const5, 1); A1(quad_static, 1); A1(quad_static_mod, 1); A1(quad_default, 1); A1(quad_inst_int, 1); A1(quad_inst_mod, 1); A1(quad_inst_con, 1); A1(winf_gf9, 1); A1(winf_gf49, 1); A1(winf_mod, 1); A1(winf_frac, 1); A1(winf_dbl, 1); A1(moebius_group, 8); A1(moebius_named, 1); A1(moebius_real, 1); A1(moebius_realf, 1); A1(moebius_reall, 1);
    A1(prim8, 2); A1(int16, 8); A1(int32_8, 8); A1(int64_8, 8); A1(int32_16, 2); A1(int64_32, 2); A1(int128_32, 8); A1(int128_64, 4); A1(int256_64, 4); A1(int512_64, 4); A1(expr, 2);
}
