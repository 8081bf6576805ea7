// C40 formal power series: every series over small fields at every small precision in all three precision storages, and structured series at larger precisions, against coefficient-wise definitions.
// MC_BOUNDS: every series of precision 1..7 over GF(2), 1..4 over GF(3), 1..3 over GF(5) and GF(3) with a run-time modulus, 1..2 over GF(7) and 1..4 over {-1,0,2} in int64 (thorough: one more each) with every partner, every shift from -N-2 to N+2, powers 0..9 and around 200 and 10^12 with every threshold strategy, in STATIC and INSTANCE precision and CONSTANT precision up to 4 (GF(2)), 3 (GF(3)), 2 or 1; operations on every single series of precision up to 6 over GF(3), 5 over GF(5), 4 over GF(7); precisions 1..50 and up to 90 (thorough 150) over GF(998244353) and fractions (1..8) with 9 patterns for inverse, logarithm, exponential, powers, composition, reversion, Newton roots and exponential transforms
// MC_ASSUME: division, inversion, logarithm and reversion only where they exist (unit constant term, constant term one, zero constant and unit linear term); operations dividing by 1..N-1 only where these are invertible; exponents are non-negative; powers by logarithms only over fields
#include "mc.h"
#include <stdint.h>
#include <stdio.h>
#include <limits.h>
#include <string.h>
#include <algorithm>
#include <vector>
#include "altruct/algorithm/math/base.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/polynom.h"
#include "altruct/algorithm/math/polynom_mod.h"
#include "altruct/structure/math/series.h"
namespace am = altruct::math; typedef long long ll; typedef __int128 LL; typedef std::vector<ll> V;
template<int Q> struct Con { typedef am::modulo<int, Q, am::modulo_storage::CONSTANT> T; static const ll P = Q; static T mk(ll x) { return T((int)x); } static ll val(const T& t) { return t.v; } };
template<int Q> struct Inst { typedef am::moduloX<int> T; static const ll P = Q; static T mk(ll x) { return T((int)x, Q); } static ll val(const T& t) { MC_CHECK(t.v == 0 || t.M() == Q, "coefficient with modulus %d", t.M()); return t.v; } };
struct Int { typedef int64_t T; static const ll P = 0; static T mk(ll x) { return x; } static ll val(const T& t) { return t; } };
template<class D> static std::vector<ll> letters() { std::vector<ll> v; if (!D::P) return {0, -1, 2}; for (int i = 0; i < D::P; i++) v.push_back(i); return v; }
template<class D> static ll nrm(LL x) { return (ll)(D::P ? ((x % D::P) + D::P) % D::P : x); }
template<class D> static V rmul(const V& a, const V& b) { int n = (int)a.size(); V r(n); for (int i = 0; i < n; i++) for (int j = 0; i + j < n && j < (int)b.size(); j++) r[i + j] = nrm<D>(r[i + j] + (LL)a[i] * b[j]); return r; }
template<class D> static V rpow(V b, ll e) { V r(b.size()); r[0] = nrm<D>(1); for (; e; e >>= 1) { if (e & 1) r = rmul<D>(r, b); if (e > 1) b = rmul<D>(b, b); } return r; }
template<class D> static V rcomp(const V& a, const V& b) { int n = (int)a.size(); V r(n); for (int i = n; i-- > 0;) { r = rmul<D>(r, b); r[0] = nrm<D>(r[0] + a[i]); } return r; }
template<class D> static V rder(const V& a) { V r(a.size()); for (size_t i = 1; i < a.size(); i++) r[i - 1] = nrm<D>((LL)a[i] * i); return r; }
template<class D> static bool unit(ll x) { return D::P ? nrm<D>(x) != 0 : x == 1 || x == -1; } // all P used here are prime
template<class D> static V rd(V v) { for (auto& x : v) x = nrm<D>(x); return v; }
template<class D, class S> static V get(const S& s) { V r; int n = s.size(); MC_CHECK((int)s.p.c.size() == n, "a series of precision %d stores %d coefficients", n, (int)s.p.c.size()); for (int i = 0; i < n; i++) { r.push_back(D::val(s.at(i))); } return r; }
#define S_(v) mc::show(v).c_str()
static void __attribute__((noinline, format(printf, 4, 5))) cmpv(const V& g, const V& w, ll P, const char* f, ...) { if (g == w) return; char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); mc::fail("%s is %s, expected %s (mod %lld)", b, S_(g), S_(w), P); }
#define EQ(got, want, ...) cmpv(get<D>(got), want, D::P, __VA_ARGS__)
template<class D, class S> static S mk(const V& v) { std::vector<typename D::T> c; for (ll x : v) c.push_back(D::mk(x)); return S(c); }
static const ll BIGP[] = {199, 200, 201, 1000, 1000000000000ll};
template<class D, class S> static void unary(const V& a0) {
    V a = rd<D>(a0); int n = (int)a.size(); const S s = mk<D, S>(a); mc::op(); EQ(s, a, "construction"); typedef typename D::T T; V zero(n), one(n); one[0] = nrm<D>(1); bool fac = D::P ? n <= D::P : false;
    { S c(s); EQ(c, a, "copy"); S m(std::move(c)); EQ(m, a, "move"); c = m; EQ(c, a, "copy assignment"); S d = mk<D, S>(one); d = std::move(c); EQ(d, a, "move assignment"); S e = mk<D, S>(one); e.swap(d); EQ(e, a, "swap"); EQ(d, one, "swap"); S f(s.p.c.begin(), s.p.c.end()); EQ(f, a, "construction from a range"); S g(s.p, n); EQ(g, a, "construction from a polynomial"); auto pp = s.p; pp.shrink_to_fit(); S h(pp, n); EQ(h, a, "construction from a shorter polynomial"); pp.resize(n + 3); pp.c[n + 1] = D::mk(1); S k(pp, n); EQ(k, a, "construction from a longer polynomial"); S l(std::move(pp), n); EQ(l, a, "construction from a longer polynomial"); for (int i = 0; i < n; i++) { S q(s); q[i] = D::mk(1); V w = a; w[i] = nrm<D>(1); EQ(q, w, "assignment of coefficient %d", i); } MC_CHECK(D::val(s.at(n)) == 0 && D::val(s.at(-1)) == 0, "coefficients outside"); }
    { V w = a; for (auto& x : w) x = nrm<D>(-x); EQ(-s, w, "-%s", S_(a)); } EQ(s.derivative(), rder<D>(a), "derivative of %s", S_(a)); EQ(am::zeroOf(s), zero, "zero"); EQ(am::identityOf(s), one, "identity"); { V w(n); w[0] = nrm<D>(1); EQ(am::castOf(s, D::mk(1)), w, "cast"); }
    if (fac) { for (ll c : {0, 1}) { auto t = s.integral(D::mk(c)); V w = get<D>(t); MC_CHECK(w[0] == c, "constant of the integral of %s", S_(a)); V d = rder<D>(w); for (int i = 0; i + 1 < n; i++) MC_CHECK(d[i] == a[i], "integral of %s is %s", S_(a), S_(w)); } MC_CHECK(s.integral() == s.integral(D::mk(0)), "integral"); }
    for (int l = -n - 2; l <= n + 2; l++) { V w(n); for (int i = 0; i < n; i++) if (i + l >= 0 && i + l < n) w[i + l] = a[i]; EQ(s.shift(l), w, "%s shifted by %d", S_(a), l); }
    for (ll x : letters<D>()) { V w = a; ll q = 1; for (int i = 0; i < n; i++) w[i] = nrm<D>((LL)w[i] * q), q = nrm<D>((LL)q * x); EQ(s.sub_mul(D::mk(x)), w, "%s at %lldx", S_(a), x); w = a; for (auto& y : w) y = nrm<D>((LL)y * x); EQ(s * D::mk(x), w, "%s * %lld", S_(a), x); if (unit<D>(x)) { auto t = s / D::mk(x); EQ(t * D::mk(x), a, "%s / %lld", S_(a), x); } }
    for (int e : {1, 2, 3, 4, n, n + 1, INT_MAX}) { if (e < 1) continue; V w(n); for (ll i = 0; i * e < n; i++) w[i * e] = a[i]; EQ(s.sub_pow(e), w, "%s at x^%d", S_(a), e); }
    { S q = s; q += q; V w = a; for (auto& x : w) x = nrm<D>(2 * x); EQ(q, w, "%s += itself", S_(a)); q = s; q -= q; EQ(q, zero, "%s -= itself", S_(a)); q = s; q *= q; EQ(q, rmul<D>(a, a), "%s *= itself", S_(a)); q = s; q = q; EQ(q, a, "self assignment"); for (int i = 0; i < n; i++) { q = s; q *= q[i]; w = a; for (auto& x : w) x = nrm<D>((LL)x * a[i]); EQ(q, w, "%s *= its coefficient %d", S_(a), i); } if (unit<D>(a[0])) { q = s; q /= q; EQ(q, one, "%s /= itself", S_(a)); } EQ(s.pointwise_mul(s), [&] { V t = a; for (auto& x : t) x = nrm<D>((LL)x * x); return t; }(), "pointwise square"); }
    if (unit<D>(a[0])) { auto r = s.inverse(); MC_CHECK(rmul<D>(a, get<D>(r)) == one, "inverse of %s is %s", S_(a), S_(get<D>(r))); }
    { V w = one; for (int e = 0; e < 10; e++, w = rmul<D>(w, a)) { EQ(s.pow(e), w, "%s to the power %d", S_(a), e); if (e && e < 5) EQ(am::powT(s, e), w, "powT"); if (fac) for (int th : {0, 1, 3}) EQ(s.pow(e, th), w, "%s to the power %d with threshold %d", S_(a), e, th); } if (fac) for (ll e : BIGP) EQ(s.pow(e), rpow<D>(a, e), "%s to the power %lld", S_(a), e); }
    bool nz = true; for (ll x : a) nz &= x != 0; if (D::P) { V w = a; for (auto& x : w) if (x) { ll y = 1; while (nrm<D>((LL)x * y) != 1) y++; x = y; } EQ(s.template pointwise_inv<false>(), w, "pointwise inverse of %s", S_(a)); if (nz) EQ(s.template pointwise_inv<true>(), w, "pointwise inverse (field) of %s", S_(a)); }
    if (fac) { V w = a; ll f = 1; for (int i = 0; i < n; i++) { if (i) f = nrm<D>((LL)f * i); w[i] = nrm<D>((LL)w[i] * f); } EQ(s.make_ordinary(), w, "make_ordinary of %s", S_(a)); EQ(s.make_exponential().make_ordinary(), a, "make_exponential of %s", S_(a)); }
    if (fac && a[0] == 1) { auto l = s.ln(); V w = get<D>(l); MC_CHECK(w[0] == 0, "constant of the logarithm"); V x = rmul<D>(rder<D>(w), a), y = rder<D>(a); for (int i = 0; i + 1 < n; i++) MC_CHECK(x[i] == y[i], "logarithm of %s is %s", S_(a), S_(w)); EQ(l.exp(), a, "exp of ln of %s", S_(a)); MC_CHECK(D::val(s.ln(D::mk(1)).at(0)) == 1, "constant of the logarithm"); }
    if (fac && a[0] == 0) { auto e = s.exp(); V w = get<D>(e); MC_CHECK(w[0] == 1, "exp of %s starts with %lld", S_(a), w[0]); V x = rmul<D>(w, rder<D>(a)), y = rder<D>(w); for (int i = 0; i + 1 < n; i++) MC_CHECK(x[i] == y[i], "exp of %s is %s", S_(a), S_(w)); EQ(e.ln(), a, "ln of exp of %s", S_(a)); }
    if (a[0] == 0 && n > 1 && unit<D>(a[1])) { auto r = s.reversion(); V id(n); id[1] = 1; MC_CHECK(rcomp<D>(a, get<D>(r)) == id && rcomp<D>(get<D>(r), a) == id, "reversion of %s is %s", S_(a), S_(get<D>(r))); } else if (n == 1 && a[0] == 0) EQ(s.reversion(), zero, "reversion of %s", S_(a));
}
template<class D, class S> static void binary(const V& a, const V& b) {
    int n = (int)a.size(); S s = mk<D, S>(a), t = mk<D, S>(b); mc::op(); V w(n); for (int i = 0; i < n; i++) w[i] = nrm<D>(a[i] + b[i]); EQ(s + t, w, "%s + %s", S_(a), S_(b)); { S q = s; q += t; EQ(q, w, "+="); } for (int i = 0; i < n; i++) w[i] = nrm<D>(a[i] - b[i]); EQ(s - t, w, "%s - %s", S_(a), S_(b)); { S q = s; q -= t; EQ(q, w, "-="); } w = rmul<D>(a, b); EQ(s * t, w, "%s * %s", S_(a), S_(b)); { S q = s; q *= t; EQ(q, w, "*="); } for (int i = 0; i < n; i++) w[i] = nrm<D>((LL)a[i] * b[i]); EQ(s.pointwise_mul(t), w, "pointwise product of %s and %s", S_(a), S_(b)); EQ(s.composition(t), rcomp<D>(a, b), "%s of %s", S_(a), S_(b)); EQ(s(t), rcomp<D>(a, b), "%s of %s", S_(a), S_(b));
    if (unit<D>(b[0])) { auto q = s / t; MC_CHECK(rmul<D>(get<D>(q), b) == rd<D>(a), "%s / %s is %s", S_(a), S_(b), S_(get<D>(q))); S r = s; r /= t; EQ(r, get<D>(q), "/="); } bool nz = true; for (ll x : b) nz &= nrm<D>(x) != 0; if (nz && D::P) { auto q = s.template pointwise_div<true>(t), r = s.template pointwise_div<false>(t); EQ(q.pointwise_mul(t), rd<D>(a), "pointwise quotient of %s by %s", S_(a), S_(b)); MC_CHECK(q == r, "pointwise quotients differ"); }
    int c = 0; V x = rd<D>(a), y = rd<D>(b); for (int i = n; i-- > 0 && !c;) c = x[i] < y[i] ? -1 : x[i] > y[i]; MC_CHECK((s == t) == (c == 0) && (s != t) == (c != 0) && (s < t) == (c < 0) && (s > t) == (c > 0) && (s <= t) == (c <= 0) && (s >= t) == (c >= 0), "comparison of %s and %s", S_(a), S_(b));
}
template<class D, int N> using SC = am::series<typename D::T, N>; template<class D> using SS = am::series<typename D::T, 3, am::series_storage::STATIC>; template<class D> using SI = am::series<typename D::T, 0, am::series_storage::INSTANCE>;
template<class D, int N> static void small_t(int st) {
    auto L = letters<D>(); V a(N); for (auto& x : a) x = L[mc::choose((int)L.size())]; mc::state(mc::H()(D::P)(N)(st).range(a)); mc::trace("precision %d over modulus %lld, storage %d, series %s", N, (ll)D::P, st, S_(a)); SS<D>::refN() = N; const int NC = N <= (D::P == 2 ? 4 : D::P == 3 ? 3 : D::P == 0 ? 2 : 1) ? N : 1; if (st == 0 && NC != N) return;
    switch (st) { case 0: unary<D, SC<D, NC>>(a); break; case 1: unary<D, SS<D>>(a); break; default: unary<D, SI<D>>(a); } V b(N, L[0]); std::vector<int> d(N); for (;;) { switch (st) { case 0: binary<D, SC<D, NC>>(a, b); break; case 1: binary<D, SS<D>>(a, b); break; default: binary<D, SI<D>>(a, b); } int i = 0; while (i < N && d[i] == (int)L.size() - 1) d[i] = 0, b[i] = L[0], i++; if (i == N) break; b[i] = L[++d[i]]; }
}
template<class D> static void small_n(int maxn) { int n = 1 + mc::choose(maxn), st = mc::choose(3); switch (n) { case 1: small_t<D, 1>(st); break; case 2: small_t<D, 2>(st); break; case 3: small_t<D, 3>(st); break; case 4: small_t<D, 4>(st); break; case 5: small_t<D, 5>(st); break; case 6: small_t<D, 6>(st); break; default: small_t<D, 7>(st); } }
static void gf2() { small_n<Con<2>>(7); } static void gf3() { small_n<Con<3>>(mc::tier(4, 5)); } static void gf5() { small_n<Con<5>>(mc::tier(3, 4)); } static void gf7() { small_n<Con<7>>(mc::tier(2, 3)); } static void x3() { small_n<Inst<3>>(mc::tier(3, 4)); } static void ints() { small_n<Int>(mc::tier(4, 5)); }
// unary operations only, longer
template<class D, int N> static void unary_only() { auto L = letters<D>(); V a(N); for (auto& x : a) x = L[mc::choose((int)L.size())]; mc::state(mc::H()(D::P)(N).range(a)); mc::trace("precision %d over modulus %lld: %s", N, (ll)D::P, S_(a)); SS<D>::refN() = N; unary<D, SS<D>>(a); unary<D, SI<D>>(a); }
static void unary_only_all() { switch (mc::choose(mc::tier(4, 6))) { case 0: unary_only<Con<7>, 4>(); break; case 1: unary_only<Con<5>, 5>(); break; case 2: unary_only<Con<5>, 4>(); break; case 3: unary_only<Con<3>, 6>(); break; case 4: unary_only<Con<7>, 5>(); break; default: unary_only<Con<5>, 6>(); } }
// ---- larger precisions
typedef Con<998244353> B;
template<class D> static V pat(int k, int n) { V a(n); for (int i = 0; i < n; i++) switch (k) { case 0: a[i] = 1; break; case 1: a[i] = nrm<D>(-(i * i) - 3); break; case 2: a[i] = i == n - 1; break; case 3: a[i] = i == n / 2 ? 5 : i == 1; break; case 4: a[i] = i < 3 ? i + 2 : 0; break; case 5: a[i] = nrm<D>((LL)i * i * i * 7919 + 12345 * i + 1); break; case 6: a[i] = i % 3 == 2 ? 1 : 0; break; case 7: a[i] = i == 1 ? 3 : 0; break; default: a[i] = D::P - 1; } return a; }
template<class D, class S> static void large_t(int n, int k) {
    V a = pat<D>(k, n), one(n); one[0] = 1; mc::op(); { V u = a; u[0] = k % 2 ? 1 : 7; auto r = mk<D, S>(u).inverse(); MC_CHECK(rmul<D>(u, get<D>(r)) == one, "inverse of pattern %d at precision %d", k, n); auto q = mk<D, S>(a) / mk<D, S>(u); MC_CHECK(rmul<D>(get<D>(q), u) == a, "quotient of pattern %d at precision %d", k, n); }
    { V u = a; u[0] = 1; S s = mk<D, S>(u); V w = get<D>(s.ln()); V x = rmul<D>(rder<D>(w), u), y = rder<D>(u); x[n - 1] = y[n - 1] = 0; MC_CHECK(x == y && w[0] == 0, "logarithm of pattern %d at precision %d", k, n); EQ(s.ln().exp(), u, "exp of ln of pattern %d at precision %d", k, n); for (ll e : {199, 200, 1007, 100000007}) EQ(s.pow(e), rpow<D>(u, e), "pattern %d of precision %d to the power %lld", k, n, e); EQ(s.pow(5, 3), rpow<D>(u, 5), "fifth power of pattern %d at precision %d", k, n); u[0] = 6; EQ((mk<D, S>(u).pow(1234567890123ll)), rpow<D>(u, 1234567890123ll), "large power of pattern %d at precision %d", k, n); u[0] = 0; for (ll e : {1, 2, 3, 201}) EQ((mk<D, S>(u).pow(e, 1)), rpow<D>(u, e), "power %lld of pattern %d with no constant at precision %d", e, k, n); }
    { V u = a; u[0] = 0; S s = mk<D, S>(u); V w = get<D>(s.exp()); V x = rmul<D>(w, rder<D>(u)), y = rder<D>(w); x[n - 1] = y[n - 1] = 0; MC_CHECK(x == y && w[0] == 1, "exp of pattern %d at precision %d", k, n); V b = pat<D>((k + 1) % 9, n); EQ((mk<D, S>(b).composition(s)), rcomp<D>(b, u), "composition of patterns %d and %d at precision %d", (k + 1) % 9, k, n); b[0] = 4; EQ((s.composition(mk<D, S>(b))), rcomp<D>(u, b), "composition of patterns %d and %d at precision %d", k, (k + 1) % 9, n); if (n > 1) { u[1] = k % 3 + 1; V r = get<D>(mk<D, S>(u).reversion()), id(n); id[1] = 1; MC_CHECK(rcomp<D>(u, r) == id, "reversion of pattern %d at precision %d", k, n); } }
    { V u = a; u[0] = 4; S target = mk<D, S>(u); typedef am::seriesX<typename D::T> SX; auto r = S::find_root(D::mk(2), n, [&](const SX& R) { SX t(target.p, R.N()); return (R * R - t) / (R * D::mk(2)); }); EQ(r * r, u, "Newton square root of pattern %d at precision %d", k, n); MC_CHECK(D::val(r.at(0)) == 2, "branch of the square root"); auto inv = S::find_root(D::mk(1) / D::mk(4), n, [&](const SX& R) { SX t(target.p, R.N()); return R - R * (am::identityOf(R) * D::mk(2) - t * R); }); MC_CHECK(rmul<D>(get<D>(inv), u) == one, "Newton inverse of pattern %d at precision %d", k, n); }
    { S s = mk<D, S>(a); V w = a; ll f = 1; for (int i = 1; i < n; i++) f = nrm<D>((LL)f * i), w[i] = nrm<D>((LL)w[i] * f); EQ(s.make_ordinary(), w, "make_ordinary"); EQ(s.make_exponential().make_ordinary(), a, "make_exponential"); EQ(s.make_ordinary().make_exponential(), a, "make_exponential"); auto e = S::exp(D::mk(k + 2), n); MC_CHECK(e.size() == n, "precision of the exponential"); ll q = 1; f = 1; for (int i = 0; i < n; i++) { if (i) f = nrm<D>((LL)f * i), q = nrm<D>((LL)q * (k + 2)); MC_CHECK(nrm<D>((LL)D::val(e.at(i)) * f) == q, "exp(%dx) is wrong at %d", k + 2, i); } auto o = S::of([&](int i) { return D::mk(a[i]); }, n); EQ(o, a, "series of a function"); }
}
static void large() { int n = 1 + mc::choose(mc::tier(60, 75)); if (n > 50) n = 50 + (n - 50) * 4 + n % 3; int k = mc::choose(9), st = mc::choose(2); mc::state(mc::H()(n)(k)(st)); mc::trace("precision %d, pattern %d", n, k); if (st) { SS<B>::refN() = n; large_t<B, SS<B>>(n, k); } else { large_t<B, SI<B>>(n, k); } }
// ---- rational series: the identities exactly, without a modulus
typedef am::fraction<int64_t> F; struct Rat { typedef F T; };
static void rational() { int n = 1 + mc::choose(mc::tier(4, 5)); std::vector<F> a(n); static const int L[] = {0, 1, -2}; for (int i = 1; i < n; i++) a[i] = F(L[mc::choose(3)]); mc::op(); { mc::H h; for (auto& x : a) h(x.p); mc::state(h(n)); } typedef am::seriesX<F> S; auto mul = [&](const S& x, const S& y) { std::vector<F> r(n, F(0)); for (int i = 0; i < n; i++) for (int j = 0; i + j < n; j++) r[i + j] += x.at(i) * y.at(j); return S(r); }; auto der_ok = [&](const S& l, const S& r, const char* w) { for (int i = 0; i + 1 < n; i++) MC_CHECK(l.at(i) == r.at(i), "%s: coefficient %d", w, i); };
    S s(a); S e = s.exp(); MC_CHECK(e.at(0) == F(1), "exp"); der_ok(mul(e, s.derivative()), e.derivative(), "exp"); MC_CHECK(e.ln() == s, "ln of exp"); a[0] = F(1); S t(a); der_ok(mul(t.ln().derivative(), t), t.derivative(), "ln"); MC_CHECK(t.ln().exp() == t, "exp of ln"); S id = am::identityOf(t); MC_CHECK(mul(t, t.inverse()) == id, "inverse"); a[0] = F(-2); S u(a); MC_CHECK(mul(u, u.inverse()) == id, "inverse"); S w = id; for (int k = 0; k < 4; k++, w = mul(w, u)) { MC_CHECK(u.pow(k) == w, "power %d", k); MC_CHECK(u.pow(k, 1) == w, "power %d by logarithm", k); } if (n > 1) { a[0] = F(0); a[1] = F(2); S v(a); S r = v.reversion(); S c = v.composition(r); for (int i = 0; i < n; i++) MC_CHECK(c.at(i) == F(i == 1), "reversion at %d", i); S acc(std::vector<F>(n, F(0))); S pw = id; for (int i = 0; i < n; i++, pw = mul(pw, r)) for (int j = 0; j < n; j++) acc[j] += a[i] * pw.at(j); MC_CHECK(acc == c, "composition"); } }
// ---- run-time precision changes
static void resizing() { typedef am::seriesX<int64_t> S; int n = 1 + mc::choose(4), m = 1 + mc::choose(6), k = 1 + mc::choose(6); mc::op(); mc::state(mc::H()(n)(m)(k)); std::vector<int64_t> a(n), b(k); for (int i = 0; i < n; i++) a[i] = 2 * i + 3; for (int i = 0; i < k; i++) b[i] = i * i - 2; S s(a), t(b); s.resize(m); MC_CHECK(s.size() == m && s.N() == m, "resize"); auto A = [&](int i) -> ll { return i < n && i < m ? a[i] : 0; }; auto Bb = [&](int i) -> ll { return i < k ? b[i] : 0; }; S sum = s + t, pr = s * t, df = s - t; MC_CHECK(sum.size() == m && pr.size() == m && df.size() == m, "the precision of the left operand"); for (int i = 0; i < m; i++) { ll w = 0; for (int j = 0; j <= i; j++) w += A(j) * Bb(i - j); MC_CHECK(s.at(i) == A(i) && sum.at(i) == A(i) + Bb(i) && df.at(i) == A(i) - Bb(i) && pr.at(i) == w, "coefficient %d with precisions %d, %d and %d", i, n, m, k); } s.swap(t); MC_CHECK(s.size() == k && t.size() == m, "swap"); for (int i = 0; i < k; i++) MC_CHECK(s.at(i) == Bb(i), "swap"); s = t; MC_CHECK(s.size() == m && s == t, "assignment"); }
MC_SETUP(all) { mc::add("gf2", gf2, 16); mc::add("gf3", gf3, 16); mc::add("gf5", gf5, 16); mc::add("gf7", gf7, 8); mc::add("x3", x3, 8); mc::add("ints", ints, 16); mc::add("unary_only", unary_only_all, 32); mc::add("large", large, 64); mc::add("rational", rational, 8); mc::add("resizing", resizing, 1); }
