// C39 polynomials: every small polynomial over several rings with every partner and aliasing, and every multiplication and division strategy at every length pair around its thresholds, against schoolbook arithmetic.
// MC_BOUNDS: every ordered pair of coefficient lists of length 0..5 over GF(2), 0..4 over GF(3) and {-1,0,2} in int64, 0..3 over Z/4 and GF(3) with a run-time modulus, 0..2 over Z/6 (thorough: one or two longer), with every operator, static form, target aliasing and truncation degree; every multiplication strategy with every degree pair up to 10 (14), every result degree, every target aliasing and dense maximal/patterned/basis coefficients for 9 moduli from 2 to 2^32-5, plus degree pairs around 47..51, 97..103, 445..455, 900, 1000 for moduli up to 2^62 and 100000 x 700 for moduli up to 10^12+39; division at every divisor degree for dividend degrees 95..103 and 185..260 in 7 patterns; zeros of every product of up to 4 integer linear factors from -3..3 with up to one irreducible quadratic; sums of every polynomial of degree up to 3 over {-2,0,1,3} and monomials up to degree 12/30
// MC_ASSUME: division only by polynomials whose leading coefficient is invertible; the FFT-based strategies only for moduli below 2^32 as documented; zeros are compared with a tolerance
#include "mc.h"
#include <stdint.h>
#include <limits.h>
#include <stdio.h>
#include <math.h>
#include <cmath>
#include <algorithm>
#include <vector>
#include "altruct/algorithm/math/base.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/polynom.h"
#include "altruct/algorithm/math/polynom_mod.h"
#include "altruct/algorithm/math/polynoms.h"
namespace am = altruct::math; typedef long long ll; typedef __int128 LL; typedef std::vector<ll> V;
// ---- coefficient domains: P = modulus (0: integers)
template<int Q> struct Con { typedef am::modulo<int, Q, am::modulo_storage::CONSTANT> T; static const ll P = Q; static T mk(ll x) { return T((int)x); } static ll val(const T& t) { return t.v; } static std::vector<ll> letters() { std::vector<ll> v; for (int i = 0; i < Q; i++) v.push_back(i); return v; } };
template<int Q> struct Inst { typedef am::moduloX<int> T; static const ll P = Q; static T mk(ll x) { return T((int)x, Q); } static ll val(const T& t) { MC_CHECK(t.v == 0 || t.M() == Q, "coefficient with modulus %d", t.M()); return t.v; } static std::vector<ll> letters() { return Con<Q>::letters(); } };
struct Int { typedef int64_t T; static const ll P = 0; static T mk(ll x) { return x; } static ll val(const T& t) { return t; } static std::vector<ll> letters() { return {0, -1, 2}; } };
template<class D> static ll nrm(ll x) { return D::P ? ((x % D::P) + D::P) % D::P : x; }
static V trim(V v) { while (!v.empty() && v.back() == 0) v.pop_back(); return v; }
static int dg(const V& v) { V t = trim(v); return t.empty() ? 0 : (int)t.size() - 1; } // library convention: deg(0) == 0
template<class D> static V nv(V v) { for (auto& x : v) x = nrm<D>(x); return trim(v); }
template<class D> static V radd(const V& a, const V& b, ll s = 1) { V r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); i++) r[i] = (i < a.size() ? a[i] : 0) + s * (i < b.size() ? b[i] : 0); return nv<D>(r); }
template<class D> static V rmul(const V& a, const V& b) { if (a.empty() || b.empty()) return V(); V r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = nrm<D>(r[i + j] + a[i] * b[j]); return nv<D>(r); }
template<class D> using PL = am::polynom<typename D::T>;
template<class D> static PL<D> mk(const V& v) { std::vector<typename D::T> c; for (ll x : v) c.push_back(D::mk(x)); return PL<D>(c); }
// an empty coefficient list carries no modulus: build it by shrinking
template<class D> static PL<D> mke(const V& v) { auto p = mk<D>(v.empty() ? V{0} : v); if (v.empty()) p.resize(0); return p; }
template<class D> static V raw(const PL<D>& p) { V r; for (auto& x : p.c) r.push_back(D::val(x)); return r; }
template<class D> static V get(const PL<D>& p) { return trim(raw<D>(p)); }
template<class D> static bool unit(ll x) { x = nrm<D>(x); if (!D::P) return x == 1 || x == -1; ll a = x, b = D::P; while (b) { ll t = a % b; a = b; b = t; } return a == 1; }
#define EQ(D, got, want, ...) do { V _g = get<D>(got), _w = (want); if (_g != _w) { char _b[300]; snprintf(_b, sizeof _b, __VA_ARGS__); mc::fail("%s is %s, expected %s (mod %lld)", _b, mc::show(_g).c_str(), mc::show(_w).c_str(), (ll)D::P); } } while (0)
#define S(v) mc::show(v).c_str()
template<class D> static void unary(const V& a) {
    typedef typename D::T T; typedef PL<D> PP; PP p = mke<D>(a); const PP& cp = p; V na = nv<D>(a); mc::op();
    MC_CHECK(cp.deg() == dg(na), "deg of %s is %d", S(a), cp.deg()); int low = 0; while (low < (int)na.size() && !na[low]) low++; if (low == (int)na.size()) low = 0; MC_CHECK(cp.lowest() == low, "lowest of %s is %d", S(a), cp.lowest()); MC_CHECK(cp.size() == (int)a.size(), "size"); for (int i = -2; i < 8; i++) MC_CHECK(D::val(cp.at(i)) == (i >= 0 && i < (int)a.size() ? nrm<D>(a[i]) : 0) && D::val(cp[i]) == D::val(cp.at(i)), "coefficient %d of %s", i, S(a)); MC_CHECK(D::val(cp.leading_coeff()) == (na.empty() ? 0 : na.back()), "leading_coeff of %s", S(a)); bool pw = na == V{1} || (na.size() > 1 && low == (int)na.size() - 1 && na.back() == 1); MC_CHECK(cp.is_power() == pw, "is_power of %s", S(a));
    EQ(D, -p, radd<D>(V(), a, -1), "-%s", S(a)); { PP q = p; PP::neg(q, q); EQ(D, q, radd<D>(V(), a, -1), "neg in place of %s", S(a)); PP r = mk<D>({1, 1, 1, 1, 1, 1}); PP::neg(r, p); EQ(D, r, radd<D>(V(), a, -1), "neg of %s", S(a)); }
    { PP q = p; q.shrink_to_fit(); EQ(D, q, na, "shrink_to_fit"); MC_CHECK(q.size() == dg(na) + 1, "size after shrink_to_fit"); q = p; q.resize(7); EQ(D, q, na, "resize up"); MC_CHECK(q.size() == 7, "size"); q = p; q.resize(2); V w = na; if (w.size() > 2) w.resize(2); EQ(D, q, trim(w), "resize(2) of %s", S(a)); q = p; q.reserve(2); EQ(D, q, na, "reserve"); MC_CHECK(q.size() == std::max(2, (int)a.size()), "size after reserve"); q = p; q[5] = D::mk(1); V v = na; v.resize(std::max<size_t>(v.size(), 6)); v[5] = 1; EQ(D, q, v, "assignment of coefficient 5 to %s", S(a)); PP z = mk<D>({1, 1}), y = p; z.swap(y); EQ(D, z, na, "swap"); EQ(D, y, nv<D>({1, 1}), "swap"); }
    { V w = na; std::reverse(w.begin(), w.end()); EQ(D, p.reverse(), trim(w), "reverse of %s", S(a)); } { V w; for (int i = 1; i < (int)na.size(); i++) w.push_back(nrm<D>(na[i] * i)); EQ(D, p.derivative(), trim(w), "derivative of %s", S(a)); }
    { bool ok = true; for (int i = 0; i < (int)na.size(); i++) if (D::P ? na[i] && !unit<D>(i + 1) : na[i] % (i + 1) != 0) ok = false; for (int i = 0; i <= dg(na); i++) if (D::P && !unit<D>(i + 1)) ok = false; if (ok) { auto q = p.integral(D::mk(1)); MC_CHECK(D::val(q.at(0)) == 1 % std::max<ll>(D::P, 2), "constant of the integral of %s", S(a)); EQ(D, q.derivative(), na, "derivative of the integral of %s", S(a)); EQ(D, p.integral().derivative(), na, "derivative of the integral of %s", S(a)); MC_CHECK(D::val(p.integral().at(0)) == 0, "constant of the integral"); } }
    V pwr{1}; pwr = nv<D>(pwr); for (int e = 0; e < 5; e++) { if (a.size()) EQ(D, am::powT(p, e), pwr, "power %d of %s", e, S(a)); pwr = rmul<D>(pwr, na); }
    for (ll s : D::letters()) { V w = na; for (auto& x : w) x = nrm<D>(x * s); EQ(D, p * D::mk(s), trim(w), "%s * %lld", S(a), s); PP r = mk<D>({1, 1, 1, 1, 1, 1}); PP::mul(r, p, D::mk(s)); EQ(D, r, trim(w), "mul(%s, %lld)", S(a), s); if (unit<D>(s)) { PP q = p / D::mk(s); EQ(D, q * D::mk(s), na, "%s / %lld", S(a), s); } ll x = 0; for (int i = (int)na.size(); i-- > 0;) x = nrm<D>(x * s + na[i]); MC_CHECK(D::val(p(D::mk(s))) == x && D::val(p.eval(D::mk(s))) == x, "%s at %lld is %lld, expected %lld", S(a), s, (ll)D::val(p(D::mk(s))), x); }
    for (int i = 0; i < (int)a.size(); i++) { V w = na; for (auto& x : w) x = nrm<D>(x * nrm<D>(a[i])); PP q = p; q *= q.c[i]; EQ(D, q, trim(w), "%s *= its coefficient %d", S(a), i); if (unit<D>(a[i])) { PP r = p; r /= r.c[i]; PP t = p / D::mk(a[i]); EQ(D, r, get<D>(t), "%s /= its coefficient %d", S(a), i); } }
    if (a.size()) for (int L = 1; L <= mc::tier(6, 9); L++) if (unit<D>(a[0])) { auto r = p.inverse(L); V w = rmul<D>(na, get<D>(r)); if ((int)w.size() > L) w.resize(L); MC_CHECK(trim(w) == V{1}, "inverse of %s to %d terms is %s", S(a), L, S(get<D>(r))); MC_CHECK(r.deg() < L, "inverse of %s to %d terms has degree %d", S(a), L, r.deg()); } else if (nrm<D>(a[0]) == 0) EQ(D, p.inverse(L), V(), "inverse of %s", S(a));
    // operands being the same object
    { PP q = p; q += q; EQ(D, q, radd<D>(a, a), "%s += itself", S(a)); q = p; q -= q; EQ(D, q, V(), "%s -= itself", S(a)); q = p; q *= q; EQ(D, q, rmul<D>(na, na), "%s *= itself", S(a)); MC_CHECK(p == p && !(p != p) && !(p < p) && p <= p && p >= p && !(p > p), "comparison with itself"); }
    if (a.size()) { EQ(D, am::zeroOf(p), V(), "zero"); EQ(D, am::identityOf(p), nv<D>({1}), "identity"); EQ(D, am::castOf(p, D::mk(1)), nv<D>({1}), "cast"); MC_CHECK(am::powT(p, 0) == am::identityOf(p), "identity"); }
}
template<class D> static void binary(const V& a, const V& b) {
    typedef PL<D> PP; PP p = mke<D>(a), q = mke<D>(b); V na = nv<D>(a), nb = nv<D>(b); mc::op(); PP junk = mk<D>({1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1});
    int c = 0; for (int i = (int)std::max(na.size(), nb.size()); i-- > 0 && !c;) { ll x = i < (int)na.size() ? na[i] : 0, y = i < (int)nb.size() ? nb[i] : 0; c = x < y ? -1 : x > y; } MC_CHECK((p == q) == (c == 0) && (p != q) == (c != 0) && (p < q) == (c < 0) && (p > q) == (c > 0) && (p <= q) == (c <= 0) && (p >= q) == (c >= 0) && PP::cmp(p, q) == c, "comparison of %s and %s", S(a), S(b));
    V w = radd<D>(a, b); EQ(D, p + q, w, "%s + %s", S(a), S(b)); { PP r = junk; PP::add(r, p, q); EQ(D, r, w, "add to a third %s %s", S(a), S(b)); r = q; PP::add(r, p, r); EQ(D, r, w, "add to the second %s %s", S(a), S(b)); r = p; PP::add(r, r, q); EQ(D, r, w, "add to the first"); }
    w = radd<D>(a, b, -1); EQ(D, p - q, w, "%s - %s", S(a), S(b)); { PP r = junk; PP::sub(r, p, q); EQ(D, r, w, "sub to a third %s %s", S(a), S(b)); r = q; PP::sub(r, p, r); EQ(D, r, w, "sub to the second %s %s", S(a), S(b)); }
    w = rmul<D>(na, nb); EQ(D, p * q, w, "%s * %s", S(a), S(b)); for (int lr = -1; lr <= 8; lr++) { V t = w; if (lr >= 0 && (int)t.size() > lr + 1) t.resize(lr + 1); t = trim(t); PP r = junk; PP::mul(r, p, q, lr); EQ(D, r, t, "mul to %d of %s %s", lr, S(a), S(b)); if (lr >= 0) MC_CHECK(r.size() == lr + 1, "mul to %d has size %d", lr, r.size()); r = p; PP::mul(r, r, q, lr); EQ(D, r, t, "mul to %d in the first of %s %s", lr, S(a), S(b)); r = q; PP::mul(r, p, r, lr); EQ(D, r, t, "mul to %d in the second of %s %s", lr, S(a), S(b)); }
    if (!nb.empty() && unit<D>(nb.back())) { auto qq = p / q, rr = p % q; V Q = get<D>(qq), R = get<D>(rr); MC_CHECK(radd<D>(rmul<D>(Q, nb), R) == na, "%s = (%s) * %s + (%s)", S(na), S(Q), S(nb), S(R)); MC_CHECK((int)R.size() < (int)nb.size(), "remainder %s of %s by %s", S(R), S(na), S(nb)); PP t = p; t /= q; EQ(D, t, Q, "/="); t = p; t %= q; EQ(D, t, R, "%%="); t = junk; PP::div(t, p, q); EQ(D, t, Q, "div"); t = junk; PP::mod(t, p, q); EQ(D, t, R, "mod"); if (na.size() >= nb.size() && na.size()) { V both = R; both.resize(nb.size() - 1); both.insert(both.end(), Q.begin(), Q.end()); both = trim(both); t = junk; PP::quot_rem(t, p, q); EQ(D, t, both, "quot_rem of %s by %s", S(a), S(b)); PP::quot_rem_long(t, p, q); EQ(D, t, both, "quot_rem_long of %s by %s", S(a), S(b)); if (D::P) { PP::quot_rem_hensel(t, p, q); EQ(D, t, both, "quot_rem_hensel of %s by %s", S(a), S(b)); t = p; PP::quot_rem_hensel(t, t, q); EQ(D, t, both, "quot_rem_hensel in place"); } t = p; PP::quot_rem_long(t, t, q); EQ(D, t, both, "quot_rem_long in place"); } }
    if (!D::P && !nb.empty()) { V pr = rmul<D>(na, nb); PP e = mke<D>(pr); EQ(D, e / q, na, "exact quotient of %s by %s", S(pr), S(b)); EQ(D, e % q, V(), "exact remainder of %s by %s", S(pr), S(b)); }
    if (a.size() && b.size()) { V comp; for (int i = (int)na.size(); i-- > 0;) comp = radd<D>(rmul<D>(comp, nb), V{na[i]}); EQ(D, p(q), comp, "%s of %s", S(a), S(b)); EQ(D, p.eval(q), comp, "eval"); }
}
template<class D> static void small_t(int maxlen) {
    auto L = D::letters(); int n = mc::choose(maxlen + 1); V a(n); for (auto& x : a) x = L[mc::choose((int)L.size())]; mc::state(mc::H()(D::P)(sizeof(typename D::T)).range(a)); mc::trace("all partners of %s over modulus %lld", S(a), (ll)D::P); unary<D>(a);
    for (int m = 0; m <= maxlen; m++) { V b(m, L[0]); std::vector<int> d(m, 0); for (;;) { binary<D>(a, b); int i = 0; while (i < m && d[i] == (int)L.size() - 1) d[i] = 0, b[i] = L[0], i++; if (i == m) break; b[i] = L[++d[i]]; } }
}
static void small_gf2() { small_t<Con<2>>(mc::tier(5, 7)); } static void small_gf3() { small_t<Con<3>>(mc::tier(4, 5)); } static void small_x3() { small_t<Inst<3>>(mc::tier(3, 4)); } static void small_z4() { small_t<Con<4>>(mc::tier(3, 4)); } static void small_int() { small_t<Int>(mc::tier(4, 5)); } static void small_x6() { small_t<Inst<6>>(mc::tier(2, 3)); }
// ---- strategies
enum { LONG, KARATSUBA, DISPATCH, FFT, BIG, CRT, NS }; static const char* SN[] = {"_mul_long", "_mul_karatsuba", "_mul", "_mul_fft", "_mul_fft_big", "_mul_fft_crt"};
template<class M> static void call(int s, M* pr, int lr, const M* a, int la, const M* b, int lb) { switch (s) { case LONG: am::polynom<M>::_mul_long(pr, lr, a, la, b, lb); break; case KARATSUBA: am::polynom<M>::_mul_karatsuba(pr, lr, a, la, b, lb); break; case DISPATCH: am::polynom<M>::_mul(pr, lr, a, la, b, lb); break; case FFT: am::polynom_mul<M>::_mul_fft(pr, lr, a, la, b, lb); break; case BIG: am::polynom_mul<M>::_mul_fft_big(pr, lr, a, la, b, lb); break; default: am::polynom_mul<M>::_mul_fft_crt(pr, lr, a, la, b, lb); } }
typedef std::vector<uint64_t> U;
static U conv(const U& a, const U& b, uint64_t M) { U r(a.size() + b.size() - 1); bool sm = M <= (1ull << 31); for (size_t k = 0; k < r.size(); k++) { size_t lo = k >= b.size() ? k - b.size() + 1 : 0, hi = std::min(k, a.size() - 1); if (sm) { uint64_t s = 0; for (size_t i = lo; i <= hi; i++) { s += a[i] * b[k - i]; if (s >> 63) s %= M; } r[k] = s % M; } else { unsigned __int128 s = 0; int t = 0; for (size_t i = lo; i <= hi; i++) { s += (unsigned __int128)a[i] * b[k - i]; if (++t == 4) s %= M, t = 0; } r[k] = (uint64_t)(s % M); } } return r; }
template<class I, int ST> struct MkM; template<class I> struct MkM<I, 0> { typedef am::modulo<I, 1, am::modulo_storage::STATIC> T; static T mk(uint64_t v, uint64_t M) { return T((I)v); } static void set(uint64_t M) { T::M() = (I)M; } }; template<class I> struct MkM<I, 1> { typedef am::moduloX<I> T; static T mk(uint64_t v, uint64_t M) { return T((I)v, (I)M); } static void set(uint64_t) {} };
template<class I, int ST> static void strat(int s, uint64_t M, const U& a, const U& b, const std::vector<int>& lrs, bool alias) {
    typedef MkM<I, ST> K; typedef typename K::T T; K::set(M); int la = (int)a.size() - 1, lb = (int)b.size() - 1; U w = conv(a, b, M); std::vector<T> x, y; for (auto v : a) x.push_back(K::mk(v, M)); for (auto v : b) y.push_back(K::mk(v, M));
    for (int lr : lrs) { mc::op(); auto ok = [&](const std::vector<T>& r, const char* how) { for (int i = 0; i <= lr; i++) MC_CHECK((uint64_t)r[i].v == w[i], "%s%s of degrees %d and %d (first coefficients %llu, %llu) to degree %d modulo %llu: coefficient %d is %llu, expected %llu", SN[s], how, la, lb, (unsigned long long)a[0], (unsigned long long)b[0], lr, (unsigned long long)M, i, (unsigned long long)r[i].v, (unsigned long long)w[i]); MC_CHECK((uint64_t)r[lr + 1].v == 1 % M && (uint64_t)r[lr + 2].v == 1 % M, "%s%s wrote beyond degree %d", SN[s], how, lr); };
        { std::vector<T> r(lr + 3, K::mk(1 % M, M)); call(s, r.data(), lr, x.data(), la, y.data(), lb); ok(r, ""); } if (!alias) continue;
        { std::vector<T> r(lr + 3, K::mk(1 % M, M)); std::copy(x.begin(), x.end(), r.begin()); call(s, r.data(), lr, r.data(), la, y.data(), lb); ok(r, " in place of the first"); } { std::vector<T> r(lr + 3, K::mk(1 % M, M)); std::copy(y.begin(), y.end(), r.begin()); for (int i = lb + 1; i <= lr; i++) r[i] = K::mk(1 % M, M); call(s, r.data(), lr, x.data(), la, r.data(), lb); ok(r, " in place of the second"); } if (a == b) { std::vector<T> r(lr + 3, K::mk(1 % M, M)); std::copy(x.begin(), x.end(), r.begin()); call(s, r.data(), lr, r.data(), la, r.data(), lb); ok(r, " of one array with itself in place"); }
    }
}
static U fill(int kind, int n, uint64_t M) { U v(n); for (int i = 0; i < n; i++) switch (kind) { case 0: v[i] = M - 1; break; case 1: v[i] = (i * 2654435761ull + (uint64_t)i * i * 40503u + 12345) % M; break; case 2: v[i] = i % 2 ? M - 1 : 0; break; case 3: v[i] = i == n - 1; break; case 4: v[i] = (M / 2 + i) % M; break; default: v[i] = i % 5 == 0 ? M - 1 : (i % 5 == 2 ? 0xFFFF % M : M / 3); } return v; }
static const uint64_t MS[] = {2, 3, 65536, 65537, 998244353, 2147483647, 2147483648ull, 4294967291ull, 4294967295ull};
template<class I> static void one(int s, uint64_t M, int la, int lb, int k1, int k2, const std::vector<int>& lrs, bool alias) { U a = fill(k1, la + 1, M), b = fill(k2, lb + 1, M); strat<I, 0>(s, M, a, b, lrs, alias); strat<I, 1>(s, M, a, b, lrs, alias); }
static void strategies_small() { int la = mc::choose(mc::tier(11, 15)), lb = mc::choose(la + 1), m = mc::choose(9), s = mc::choose(NS); uint64_t M = MS[m]; mc::state(mc::H()(la)(lb)(m)(s)); mc::trace("%s, degrees %d and %d, modulus %llu", SN[s], la, lb, (unsigned long long)M); std::vector<int> lrs; for (int l = la; l <= la + lb; l++) lrs.push_back(l);
    for (int k1 = 0; k1 < 6; k1++) for (int k2 = 0; k2 < 6; k2 += (k1 ? 3 : 1)) { if (M <= INT_MAX) one<int>(s, M, la, lb, k1, k2, lrs, true); one<uint32_t>(s, M, la, lb, k1, k2, lrs, true); if (k1 == k2) { one<int64_t>(s, M, la, lb, k1, k2, lrs, true); one<uint64_t>(s, M, la, lb, k1, k2, lrs, true); } } }
static const int TH[][2] = {{47, 47}, {48, 47}, {48, 48}, {49, 48}, {50, 48}, {51, 49}, {60, 31}, {97, 48}, {95, 49}, {98, 97}, {99, 99}, {100, 100}, {102, 101}, {103, 50}, {300, 70}, {445, 100}, {449, 120}, {450, 99}, {450, 100}, {450, 449}, {451, 101}, {455, 300}, {511, 512}, {512, 512}, {900, 110}, {1000, 1000}};
static void strategies_large() { int t = mc::choose(sizeof TH / sizeof *TH), m = mc::choose(12), s = mc::choose(NS); static const uint64_t W[] = {4294967296ull, 1000000000039ull, (1ull << 62) - 57}; uint64_t M = m < 9 ? MS[m] : W[m - 9]; int la = std::max(TH[t][0], TH[t][1]), lb = std::min(TH[t][0], TH[t][1]); if (m >= 9 && s >= FFT) return; if (!mc::thorough() && la > 400 && (m % 2 == 0) && s != DISPATCH && s != CRT) return; if (s == LONG && la > 500) return; mc::state(mc::H()(t)(m)(s)); mc::trace("%s, degrees %d and %d, modulus %llu", SN[s], la, lb, (unsigned long long)M);
    for (int k : {0, 1, 5}) { U a = fill(k, la + 1, M), b = fill(k, lb + 1, M); std::vector<int> lrs = {la + lb}; if (la < 110 || k == 0) lrs = {la, la + lb / 2, la + lb - 1, la + lb}; if (m >= 9) strat<int64_t, 0>(s, M, a, b, lrs, k == 0); else { if (M <= INT_MAX) strat<int, 0>(s, M, a, b, lrs, k == 0); else strat<uint32_t, 1>(s, M, a, b, lrs, k == 0); if (la < 110) strat<int64_t, 0>(s, M, a, b, lrs, false); strat<uint32_t, 0>(s, M, a, b, {la + lb}, false); } } }
// public multiplication with (possibly) longer operand second and truncation below the operand degrees
static void dispatch() { static const int L[] = {0, 1, 46, 48, 49, 99, 101, 448, 451, 700}; int i = mc::choose(10), j = mc::choose(10), m = mc::choose(12); static const uint64_t W[] = {4294967296ull, 1000000000039ull, (1ull << 62) - 57}; uint64_t M = m < 9 ? MS[m] : W[m - 9]; mc::state(mc::H()(i)(j)(m)); typedef MkM<int64_t, 0> K; typedef K::T T; K::set(M); U a = fill(5, L[i] + 1, M), b = fill(1, L[j] + 1, M); b[L[j]] = 1; a[L[i]] = M - 1; U w = conv(a, b, M); std::vector<T> x, y; for (auto v : a) x.push_back(K::mk(v, M)); for (auto v : b) y.push_back(K::mk(v, M)); am::polynom<T> p(x), q(y); p.resize(L[i] + 4); auto ok = [&](const am::polynom<T>& r, int n, const char* s) { mc::op(); for (int k = 0; k < n; k++) { uint64_t e = k < (int)w.size() ? w[k] : 0; MC_CHECK((uint64_t)r.at(k).v == e, "%s of degrees %d and %d modulo %llu to %d terms is wrong at %d", s, L[i], L[j], (unsigned long long)M, n, k); } MC_CHECK(r.deg() < n, "degree"); };
    ok(p * q, L[i] + L[j] + 1, "product"); { auto r = p; r *= q; ok(r, L[i] + L[j] + 1, "*="); } int lrs[] = {0, std::min(L[i], L[j]), std::max(L[i], L[j]) - 1, std::max(L[i], L[j]), (L[i] + L[j]) / 2, L[i] + L[j] + 5}; for (int lr : lrs) if (lr >= 0) { am::polynom<T> r; am::polynom<T>::mul(r, p, q, lr); ok(r, lr + 1, "mul"); r = p; am::polynom<T>::mul(r, r, q, lr); ok(r, lr + 1, "mul in place of the first"); r = q; am::polynom<T>::mul(r, p, r, lr); ok(r, lr + 1, "mul in place of the second"); } }
static void huge() { int m = mc::choose(mc::tier(4, 5)), d = mc::choose(mc::tier(2, 5)); uint64_t M = std::vector<uint64_t>{998244353, 4294967291ull, 2, 1000000000039ull, 2147483647}[m]; static const int D[][2] = {{100000, 700}, {99400, 601}, {70000, 600}, {120000, 3}, {60000, 45000}}; if (d == 4 && m > 1) return; int la = D[d][0], lb = D[d][1]; mc::op(); mc::state(mc::H()(m)(d)); mc::trace("degrees %d and %d modulo %llu", la, lb, (unsigned long long)M); U a = fill(0, la + 1, M), b = fill(0, lb + 1, M); typedef MkM<uint64_t, 0> K; typedef K::T T; K::set(M); am::polynom<T> p, q; p.c.clear(); q.c.clear(); for (auto v : a) p.c.push_back(K::mk(v, M)); for (auto v : b) q.c.push_back(K::mk(v, M)); auto r = p * q; for (int k = 0; k <= la + lb; k++) { uint64_t t = std::min(std::min(k, lb), la + lb - k) + 1; MC_CHECK((uint64_t)r.at(k).v == t % M, "product of constant -1 sequences of degrees %d, %d modulo %llu at %d is %llu, expected %llu", la, lb, (unsigned long long)M, k, (unsigned long long)r.at(k).v, (unsigned long long)(t % M)); } a = fill(1, la + 1, M); for (int i = 0; i <= la; i++) p.c[i] = K::mk(a[i], M); if (lb < 1000) { U w = conv(a, b, M); r = p * q; for (int k = 0; k <= la + lb; k++) MC_CHECK((uint64_t)r.at(k).v == w[k], "product at %d", k); } }
// ---- division
template<class I, int ST> static void divide(uint64_t M, const U& a, const U& b) {
    typedef MkM<I, ST> K; typedef typename K::T T; typedef am::polynom<T> PP; K::set(M); std::vector<T> x, y; for (auto v : a) x.push_back(K::mk(v, M)); for (auto v : b) y.push_back(K::mk(v, M)); PP p(x), q(y); int la = (int)a.size() - 1, lb = (int)b.size() - 1; mc::op();
    auto ok = [&](const PP& Q, const PP& R, const char* s) { U u, r; for (int i = 0; i <= la - lb; i++) u.push_back((uint64_t)Q.at(i).v); U w = conv(u, b, M); for (int i = 0; i <= la; i++) { uint64_t z = (w[i] + (i < lb ? (uint64_t)R.at(i).v : 0)) % M; MC_CHECK(z == a[i], "%s of degree %d by degree %d modulo %llu: q * b + r differs from a at %d", s, la, lb, (unsigned long long)M, i); } MC_CHECK(Q.size() <= la - lb + 1 && R.size() <= std::max(lb, 0), "%s: the quotient has %d and the remainder has %d coefficients (degrees %d and %d)", s, Q.size(), R.size(), la, lb); };
    ok(p / q, p % q, "division"); { PP d, m; PP::div(d, p, q); PP::mod(m, p, q); ok(d, m, "div/mod"); d = p; d /= q; m = p; m %= q; ok(d, m, "in-place division"); } for (int h = 0; h < 2; h++) { PP t; if (h) PP::quot_rem_hensel(t, p, q); else PP::quot_rem_long(t, p, q); PP Q, R; Q.c.assign(t.c.begin() + lb, t.c.end()); R.c.assign(t.c.begin(), t.c.begin() + lb); ok(Q, R, h ? "Hensel division" : "long division"); }
}
static void division() { int la = mc::choose(mc::tier(13, 40)), k = mc::choose(7), m = mc::choose(5); static const int LA[] = {95, 99, 100, 101, 103, 185, 190, 192, 193, 195, 200, 220, 260}; la = mc::thorough() ? (la < 13 ? LA[la] : 180 + 3 * la) : LA[la]; uint64_t M = std::vector<uint64_t>{2, 7, 65536, 998244353, 4294967291ull}[m]; mc::state(mc::H()(la)(k)(m)); mc::trace("dividends of degree %d, pattern %d, modulus %llu", la, k, (unsigned long long)M); for (int lb = 0; lb <= la; lb += (lb >= 44 && lb < 60) || lb > 150 || lb < 3 || lb > la - 4 ? (mc::thorough() ? 1 : 3) : 13) { U a = fill(k % 6, la + 1, M), b = fill((k + 1) % 6, lb + 1, M); if (!a[la]) a[la] = 1; b[lb] = k % 2 ? 1 : M - 1; if (k == 6) { std::fill(b.begin(), b.end(), 0); b[lb] = 1; if (lb > 1) b[0] = M - 1; } if (k == 4) for (int i = 0; i < lb / 2; i++) b[i] = 0; if (k == 5) { for (int i = lb - 1; i > lb / 3; i--) b[i] = 0; for (int i = 0; i < la / 2; i++) a[i] = 0; } divide<int64_t, 0>(M, a, b); if (lb % 4 == 0) divide<uint32_t, 1>(M, a, b); } }
// integers with a leading coefficient that is not a unit: the quotient of an exact product, and q * b + r = a when every leading step divides
static void division_int() { static const int LQ[] = {0, 3, 47, 60, 99, 120, 200}, LB[] = {1, 40, 60, 99, 150, 180, 200, 260}; int i = mc::choose(7), j = mc::choose(8), ld = mc::choose(4), re = mc::choose(3); ll lead = std::vector<ll>{2, -3, 5, 12}[ld]; int lq = LQ[i], lb = LB[j]; mc::state(mc::H()(i)(j)(ld)(re)); mc::op(); mc::trace("exact division of degree %d by degree %d with leading coefficient %lld", lq + lb, lb, lead); V q, b; for (int k = 0; k <= lq; k++) q.push_back((k * 7 + k * k * 3 + 1) % 11 - 5); q[lq] = 3; for (int k = 0; k <= lb; k++) b.push_back((k * 5 + k * k * 2 + 3) % 9 - 4); b[lb] = lead; V r; for (int k = 0; k < (re ? lb : 0); k++) r.push_back(re == 1 ? (k * 13 + 5) % 17 - 8 : k == lb - 1); V a = radd<Int>(rmul<Int>(q, b), r); while (!r.empty() && !r.back()) r.pop_back();
    typedef am::polynom<int64_t> PP; std::vector<int64_t> va(a.begin(), a.end()), vb(b.begin(), b.end()); PP x(va), y(vb); auto eq = [&](const PP& g, const V& w, const char* s) { for (int k = 0; k < std::max((int)w.size(), g.size()); k++) { ll e = k < (int)w.size() ? w[k] : 0; MC_CHECK((ll)g.at(k) == e, "%s of degree %d by degree %d with leading coefficient %lld: coefficient %d is %lld, expected %lld", s, lq + lb, lb, lead, k, (ll)g.at(k), e); } };
    eq(x / y, q, "quotient"); eq(x % y, r, "remainder"); PP t; PP::quot_rem(t, x, y); for (int k = 0; k < lb; k++) MC_CHECK((ll)t.at(k) == (k < (int)r.size() ? r[k] : 0), "quot_rem: remainder at %d", k); for (int k = 0; k <= lq; k++) MC_CHECK((ll)t.at(lb + k) == q[k], "quot_rem: quotient at %d", k); PP d = x; d /= y; eq(d, q, "in-place quotient"); d = x; d %= y; eq(d, r, "in-place remainder"); }
static void inverses() { int k = mc::choose(6), m = mc::choose(5), L = 1 + mc::choose(mc::tier(40, 140)); if (L > 30) L = (L - 30) * 17; uint64_t M = std::vector<uint64_t>{2, 9, 65537, 998244353, 4294967291ull}[m]; if (L > 800) return; mc::state(mc::H()(k)(m)(L)); mc::op(); for (int n : {1, L / 2 + 1, L, L + 3}) { U a = fill(k, n, M); a[0] = k % 2 ? 1 : M - 1; typedef MkM<int64_t, 0> K; typedef K::T T; K::set(M); std::vector<T> x; for (auto v : a) x.push_back(K::mk(v, M)); auto r = am::polynom<T>(x).inverse(L); U b; for (int i = 0; i < L; i++) b.push_back((uint64_t)r.at(i).v); U w = conv(a, b, M); for (int i = 0; i < L; i++) MC_CHECK(w[i] == (i == 0), "inverse to %d terms modulo %llu is wrong at %d", L, (unsigned long long)M, i); MC_CHECK(r.deg() < L, "the inverse to %d terms has degree %d", L, r.deg()); } }
// ---- roots and sums
static void zeros() { int n = mc::choose(5); std::vector<int> rt(n); for (int i = 0; i < n; i++) rt[i] = (i ? rt[i - 1] : -3) + mc::choose((i ? 3 - rt[i - 1] : 6) + 1); int quad = mc::choose(3), sc = mc::choose(3); static const double INF[] = {10, 1e4, 1e10}; V c{sc == 0 ? 1 : sc == 1 ? -1 : 3}; for (int r : rt) c = rmul<Int>(c, V{-r, 1}); if (quad) c = rmul<Int>(c, quad == 1 ? V{1, 0, 1} : V{2, 1, 1}); if (n == 0 && !quad && sc == 2) return; mc::state(mc::H().range(c)); mc::op(); mc::trace("zeros of %s", S(c)); std::vector<double> cd(c.begin(), c.end()); am::polynom<double> p(cd); std::vector<int> ci(c.begin(), c.end()); am::polynom<int> pi(ci);
    for (double inf : INF) for (int ty = 0; ty < 2; ty++) { auto z = ty ? am::find_zeros(pi, inf, 1e-7) : am::find_zeros(p, inf, 1e-7); std::string g; for (double x : z) g += " " + std::to_string(x); for (double x : z) { double d = 1e9; for (int r : rt) d = std::min(d, fabs(x - r)); MC_CHECK(d < 0.02, "zeros of %s are%s", S(c), g.c_str()); MC_CHECK(fabs(p(x)) <= 1e-7, "reported zero %g of %s has value %g", x, S(c), p(x)); } for (int r : rt) { double d = 1e9; for (double x : z) d = std::min(d, fabs(x - r)); MC_CHECK(d < 0.02, "zero %d of %s is not among%s", r, S(c), g.c_str()); } if (!quad) MC_CHECK(z.size() == rt.size(), "zeros of %s with multiplicity are%s", S(c), g.c_str()); for (size_t i = 1; i < z.size(); i++) MC_CHECK(z[i - 1] <= z[i] + 1e-9, "zeros are not sorted:%s", g.c_str()); } }
static void search() { int kind = mc::choose(4), s = mc::choose(2) ? -1 : 1, lo = mc::choose(5) - 4, hi = lo + 1 + mc::choose(5), y2 = mc::choose(41) - 20, eps = mc::choose(2); if (kind == 3 && lo < 0) return; static const char* NM[] = {"x", "x^3", "x^3+x+1", "x^2"}; double y = y2 / 2.0; am::polynom<double> p = kind == 0 ? am::polynom<double>{0, 1} : kind == 1 ? am::polynom<double>{0, 0, 0, 1} : kind == 2 ? am::polynom<double>{1, 1, 0, 1} : am::polynom<double>{0, 0, 1}; if (s < 0) p = -p; double b = p(lo), e = p(hi); if (y < std::min(b, e) || y > std::max(b, e)) return; mc::op(); mc::state(mc::H()(kind)(s)(lo)(hi)(y2)(eps)); double tol = eps ? 1e-3 : 0; double x = am::monotonic_search(p, (double)lo, (double)hi, y, tol); MC_CHECK(x >= lo && x <= hi && fabs(p(x) - y) <= tol + 1e-9, "monotonic_search for %s%s = %g in [%d, %d] found %g with value %g", s < 0 ? "-" : "", NM[kind], y, lo, hi, x, p(x)); auto f = [&](double t) { return p(t); }; double x2 = am::monotonic_search(f, (double)lo, (double)hi, y, tol, 1e-12); MC_CHECK(fabs(p(x2) - y) <= tol + 1e-9, "monotonic_search with a functor found %g", x2); }
template<class T, class F> static void sum_of(const V& c, F mkf, int N) { std::vector<T> v; for (ll x : c) v.push_back(mkf(x)); am::polynom<T> p(v); auto s = am::polynom_sum(p); T acc = mkf(0); mc::op(); for (int n = 0; n <= N; n++) { T at = s(mkf(n)); MC_CHECK(at == acc, "the discrete integral of %s is wrong at %d", S(c), n); acc += p(mkf(n + 1)); } }
typedef am::fraction<int64_t> FR; typedef am::modulo<int, 1000000007, am::modulo_storage::CONSTANT> MP; typedef am::moduloX<int64_t> MX;
static void sums() { static const int L[] = {-2, 0, 1, 3}; int n = 1 + mc::choose(4); V c(n); for (auto& x : c) x = L[mc::choose(4)]; mc::state(mc::H().range(c)); sum_of<FR>(c, [](ll x) { return FR(x); }, 12); sum_of<MP>(c, [](ll x) { return MP((int)x); }, 40); sum_of<MX>(c, [](ll x) { return MX(x, 1000003); }, 40); }
static void monomial_sums() { int d = mc::choose(31); V c(d + 1); c[d] = 1; mc::state(d); if (d <= 8) sum_of<FR>(c, [](ll x) { return FR(x); }, 7); sum_of<MP>(c, [](ll x) { return MP((int)x); }, d + 10); sum_of<MX>(c, [](ll x) { return MX(x, 1000003); }, d + 10); }
MC_SETUP(all) { mc::add("small_gf2", small_gf2, 8); mc::add("small_gf3", small_gf3, 16); mc::add("small_x3", small_x3, 8); mc::add("small_z4", small_z4, 8); mc::add("small_x6", small_x6, 4); mc::add("small_int", small_int, 16); mc::add("strategies_small", strategies_small, 32); mc::add("strategies_large", strategies_large, 64); mc::add("dispatch", dispatch, 16); mc::add("huge", huge, 8); mc::add("division", division, 32); mc::add("division_int", division_int, 8); mc::add("inverses", inverses, 8); mc::add("zeros", zeros, 8); mc::add("search", search, 2); mc::add("sums", sums, 4); mc::add("monomial_sums", monomial_sums, 1); }
