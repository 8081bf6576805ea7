// C44 geometric algebras and vectors: every typed product, dual, reversal, norm, inverse and sandwich against the multiplication of basis elements.
// MC_BOUNDS: projective algebra: every ordered pair of the 14 blade types (and zero) under + - * ^ & |, on every pair of basis elements, sums of two basis elements and a dense element; every sandwich a % b with b of homogeneous parity on the same operands; every unary operation, partial constructor, scalar operation (including a scalar that is a coefficient of the operand itself); all of it again with coefficients that carry their modulus; Cl(3): every pair of rotor/vector/multivector with coefficients from all basis elements, pairs and a dense one, inverses of every multivector with coefficients in {-1,0,1}; vectors of 2, 3 and N dimensions: every pair (triple) of small integer vectors
// MC_ASSUME: dividing by an element that has an inverse; unit reflectors and rotors
// MC_SAN: asan
// MC_FLAGS: -O0
#include "mc.h"
#include <cmath>
#include <array>
#include <vector>
#include <string>
#include <algorithm>
#include <type_traits>
#include <initializer_list>
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/vector2d.h"
#include "altruct/structure/math/vector3d.h"
#include "altruct/structure/math/vectorNd.h"
#include "altruct/structure/math/pga.h"
#include "altruct/structure/math/clifford3.h"
namespace am = altruct::math; namespace pg = altruct::math::pga; typedef long long ll;
#define NI __attribute__((noinline))
typedef am::moduloX<int> MX; const int MOD = 101;
static ll val(ll x) { return x; } static ll val(double x) { return llround(x); }
static ll val(const MX& x) { MC_CHECK(x.M() == MOD, "a coefficient lost its modulus: %d mod %d", x.v, x.M()); return x.v; }
template<class T> T mk(ll v) { return T(v); } template<> MX mk<MX>(ll v) { return MX((int)(((v % MOD) + MOD) % MOD), MOD); }
template<class T> bool same(ll got, ll want) { return got == want; } template<> bool same<MX>(ll got, ll want) { return (got - want) % MOD == 0; }
// ---- the algebra itself: 16 coefficients indexed by the set of basis vectors (bit 0 = e0, e0^2 = 0, e1^2 = e2^2 = e3^2 = 1), in ascending order
typedef std::array<ll, 16> A;
static int sgn(int a, int b) { int s = 0; for (a >>= 1; a; a >>= 1) s += __builtin_popcount(a & b); return s & 1 ? -1 : 1; }
static int gr(int m) { return __builtin_popcount((unsigned)m); }
enum Kind { GP, WEDGE, DOT };
static A prod(const A& a, const A& b, Kind k) { A r{}; for (int i = 0; i < 16; i++) if (a[i]) for (int j = 0; j < 16; j++) if (b[j]) { if (i & j & 1) continue; int g = gr(i ^ j); if (k == WEDGE && g != gr(i) + gr(j)) continue; if (k == DOT && g != std::abs(gr(i) - gr(j))) continue; r[i ^ j] += sgn(i, j) * a[i] * b[j]; } return r; }
static A rev(A a) { for (int i = 0; i < 16; i++) if (gr(i) == 2 || gr(i) == 3) a[i] = -a[i]; return a; }
static A add(A a, const A& b, int s = 1) { for (int i = 0; i < 16; i++) a[i] += s * b[i]; return a; } static A scale(A a, ll s) { for (auto& x : a) x *= s; return a; }
// named components in the order s e0 e1 e2 e3 e23 e31 e12 e01 e02 e03 e123 e032 e013 e021 e0123
static const int MASK[16] = {0, 1, 2, 4, 8, 12, 10, 6, 3, 5, 9, 14, 13, 11, 7, 15}; static const int SIGN[16] = {1, 1, 1, 1, 1, 1, -1, 1, 1, 1, 1, 1, -1, 1, -1, 1};
static const int DUAL[16] = {15, 11, 12, 13, 14, 8, 9, 10, 5, 6, 7, 1, 2, 3, 4, 0};
typedef std::array<ll, 16> N; // by name
static A of(const N& n) { A a{}; for (int i = 0; i < 16; i++) a[MASK[i]] = SIGN[i] * n[i]; return a; }
static N by_name(const A& a) { N n; for (int i = 0; i < 16; i++) n[i] = SIGN[i] * a[MASK[i]]; return n; }
static A dual(const A& a) { N n = by_name(a), d; for (int i = 0; i < 16; i++) d[DUAL[i]] = n[i]; return of(d); }
// ---- reading and building typed values
enum { S0 = 0, S1 = 1, S2E = 5, S2e = 8, S3 = 11, S4 = 15 };
template<class T> void rd(N&, const pg::zero<T>&) {}
template<class T> void v3(N& n, int at, const am::vector3d<T>& v) { n[at] = val(v.x); n[at + 1] = val(v.y); n[at + 2] = val(v.z); }
template<class T> void rd(N& n, const pg::blade0<T>& b) { n[S0] = val(b.s); } template<class T> void rd(N& n, const pg::blade4<T>& b) { n[S4] = val(b.e0123); }
template<class T> void rd(N& n, const pg::blade1<T>& b) { n[S1] = val(b.e0); v3(n, S1 + 1, b.v); } template<class T> void rd(N& n, const pg::blade3<T>& b) { n[S3] = val(b.e123); v3(n, S3 + 1, b.triP); }
template<class T> void rd(N& n, const pg::blade2E<T>& b) { v3(n, S2E, b.biE); } template<class T> void rd(N& n, const pg::blade2e<T>& b) { v3(n, S2e, b.bie); }
template<class B, class = decltype(std::declval<B>().first())> void rd(N& n, const B& b) { rd(n, b.first()); rd(n, b.second()); }
template<class B> N read(const B& b) { N n{}; rd(n, b); return n; }
template<class T> am::vector3d<T> w3(const N& n, int at) { return am::vector3d<T>(mk<T>(n[at]), mk<T>(n[at + 1]), mk<T>(n[at + 2])); }
template<class B> struct Mk;
#define MK1(B, E, MASKEXPR) template<class T> struct Mk<pg::B<T>> { static pg::B<T> of(const N& n) { (void)n; return E; } static bool has(int i) { return MASKEXPR; } static const char* name() { return #B; } };
#define MK(B) Mk<pg::B<T>>::of(n)
#define HAS(B) Mk<pg::B<T>>::has(i)
MK1(zero, pg::zero<T>(), i < 0)
MK1(blade0, pg::blade0<T>(mk<T>(n[S0])), i == S0) MK1(blade1, pg::blade1<T>(mk<T>(n[S1]), w3<T>(n, S1 + 1)), i >= S1 && i < S2E) MK1(blade2E, pg::blade2E<T>(w3<T>(n, S2E)), i >= S2E && i < S2e) MK1(blade2e, pg::blade2e<T>(w3<T>(n, S2e)), i >= S2e && i < S3) MK1(blade3, pg::blade3<T>(mk<T>(n[S3]), w3<T>(n, S3 + 1)), i >= S3 && i < S4) MK1(blade4, pg::blade4<T>(mk<T>(n[S4])), i == S4)
MK1(blade02E, pg::blade02E<T>(MK(blade0), MK(blade2E)), HAS(blade0) || HAS(blade2E)) MK1(blade02e, pg::blade02e<T>(MK(blade0), MK(blade2e)), HAS(blade0) || HAS(blade2e)) MK1(blade22, pg::blade22<T>(MK(blade2E), MK(blade2e)), HAS(blade2E) || HAS(blade2e)) MK1(blade2E4, pg::blade2E4<T>(MK(blade2E), MK(blade4)), HAS(blade2E) || HAS(blade4)) MK1(blade2e4, pg::blade2e4<T>(MK(blade2e), MK(blade4)), HAS(blade2e) || HAS(blade4))
MK1(blade024, pg::blade024<T>(MK(blade02E), MK(blade2e4)), HAS(blade02E) || HAS(blade2e4)) MK1(blade13, pg::blade13<T>(MK(blade1), MK(blade3)), HAS(blade1) || HAS(blade3)) MK1(multivector, pg::multivector<T>(MK(blade024), MK(blade13)), i >= 0)
static std::string nm(const N& n) { static const char* s[16] = {"", "e0", "e1", "e2", "e3", "e23", "e31", "e12", "e01", "e02", "e03", "e123", "e032", "e013", "e021", "e0123"}; std::string r; for (int i = 0; i < 16; i++) if (n[i]) r += (r.empty() ? "" : " + ") + std::to_string(n[i]) + s[i]; return "(" + (r.empty() ? "0" : r) + ")"; }
template<class B> std::vector<N> samples(bool few) { std::vector<N> r; N d{}; std::vector<int> ix; for (int i = 0; i < 16; i++) if (Mk<B>::has(i)) ix.push_back(i); int k = 0; for (int i : ix) { N n{}; n[i] = 1; r.push_back(n); static const int D[16] = {2, -3, 1, 4, -1, 3, -2, 1, 5, -4, 2, 3, -1, -5, 4, 1}; d[i] = D[k++]; } if (ix.size() != 1) r.push_back(d); if (!few) for (size_t i = 0; i < ix.size(); i++) for (size_t j = i + 1; j < ix.size(); j++) { N n{}; n[ix[i]] = 2; n[ix[j]] = -3; r.push_back(n); } return r; }
template<class T> NI void eqA(const N& got, const A& want, const char* ta, const N& a, const char* op, const char* tb, const N& b) { N w = by_name(want); for (int i = 0; i < 16; i++) MC_CHECK((same<T>(got[i], w[i])), "%s%s %s %s%s is %s, expected %s", ta, nm(a).c_str(), op, tb, nm(b).c_str(), nm(got).c_str(), nm(w).c_str()); }
#define BIN(OP, EXPR) eqA<T>(read(x OP y), EXPR, Mk<BL>::name(), a, #OP, Mk<BR>::name(), b)
#define ZZ (std::is_same<BL, pg::zero<T>>::value && std::is_same<BR, pg::zero<T>>::value)
template<class T, class BL, class BR> NI void pair_ops(bool few) { auto SA = samples<BL>(few), SB = samples<BR>(few); for (auto& a : SA) { const BL x = Mk<BL>::of(a); const A p = of(a); for (auto& b : SB) { mc::op(6); const BR y = Mk<BR>::of(b); const A q = of(b); BIN(*, prod(p, q, GP)); BIN(^, prod(p, q, WEDGE)); BIN(&, prod(p, q, DOT)); BIN(|, dual(prod(dual(p), dual(q), WEDGE))); BIN(+, add(p, q)); BIN(-, add(p, q, -1)); } } }
// b is orthogonal when b ~b is a scalar (the header promises the sandwich for these): two dense ones of every kind
template<class B> void orthogonal(std::vector<N>& r) { auto has = [](int i) { return Mk<B>::has(i); }; for (int k = 0; k < 2; k++) { N n{}; static const int D[2][16] = {{1, 3, 2, -3, 1, 2, -3, 1, 4, -1, 3, 1, 4, -1, 3, 2}, {-1, 2, 1, 4, -2, -1, 2, 5, 3, 3, 1, -1, 2, 0, -5, 3}}; for (int i = 0; i < 16; i++) if (has(i)) n[i] = D[k][i]; ll d = 0; for (int i = 0; i < 3; i++) d += n[S2E + i] * n[S2e + i] + n[S1 + 1 + i] * n[S3 + 1 + i]; if (has(S4) && has(S0)) n[S4] = d * n[S0]; else if (has(S1) && has(S3)) n[S1] = -d * n[S3]; else if (has(S2E) && has(S2e)) { const ll* u = &n[S2E]; n[S2e] = u[1] * 2 - u[2]; n[S2e + 1] = u[2] - u[0] * 2; n[S2e + 2] = u[0] - u[1]; } r.push_back(n); } }
static bool scalar(const A& a) { for (int i = 1; i < 16; i++) if (a[i]) return false; return true; }
template<class T, class BL, class BR> NI void sandwich(bool few) { auto SA = samples<BL>(few), SB = samples<BR>(few); orthogonal<BR>(SB); for (auto& b : SB) { const BR y = Mk<BR>::of(b); const A q = of(b); if (!scalar(prod(q, rev(q), GP))) continue; bool odd = false; for (int i = 0; i < 16; i++) if (Mk<BR>::has(i)) odd = gr(MASK[i]) & 1; for (auto& a : SA) { const BL x = Mk<BL>::of(a); const A p = of(a); mc::op(); BIN(%, scale(prod(prod(q, p, GP), rev(q), GP), odd ? -1 : 1)); } } }
#define PGA_NZ(X) X(blade0) X(blade1) X(blade2E) X(blade2e) X(blade3) X(blade4) X(blade02E) X(blade02e) X(blade22) X(blade2E4) X(blade2e4) X(blade024) X(blade13)
typedef void (*PF)(bool);
template<class T, class BL> void row(std::vector<PF>& t) {
#define X(B) t.push_back(&pair_ops<T, BL, pg::B<T>>);
    PGA_NZ(X) X(multivector) X(zero)
#undef X
}
template<class T> std::vector<PF> table() { std::vector<PF> t;
#define X(B) row<T, pg::B<T>>(t);
    PGA_NZ(X) X(multivector) X(zero)
#undef X
    return t; }
template<class T, class BL> void srow(std::vector<PF>& t) {
#define X(B) t.push_back(&sandwich<T, BL, pg::B<T>>);
    PGA_NZ(X)
#undef X
}
template<class T> std::vector<PF> stable() { std::vector<PF> t;
#define X(B) srow<T, pg::B<T>>(t);
    PGA_NZ(X) X(multivector)
#undef X
    return t; }

// coefficients that carry their modulus: sums of all pairs, everything for pairs of single-grade blades
template<class T, class BL, class BR> NI void pair_add(bool few) { for (auto& a : samples<BL>(few)) for (auto& b : samples<BR>(few)) { mc::op(2); const BL x = Mk<BL>::of(a); const BR y = Mk<BR>::of(b); const A p = of(a), q = of(b); BIN(+, add(p, q)); BIN(-, add(p, q, -1)); } }
#define PGA_1(X) X(blade0) X(blade1) X(blade2E) X(blade2e) X(blade3) X(blade4)
template<class BL> void mrow(std::vector<PF>& t) {
#define X(B) t.push_back(&pair_add<MX, BL, pg::B<MX>>);
    PGA_NZ(X) X(multivector)
#undef X
}
template<class BL> void mrow1(std::vector<PF>& t) {
#define X(B) t.push_back(&pair_ops<MX, BL, pg::B<MX>>); t.push_back(&sandwich<MX, BL, pg::B<MX>>);
    PGA_1(X)
#undef X
#define X(B) t.push_back(&sandwich<MX, BL, pg::B<MX>>);
    X(blade22) X(blade2E4) X(blade2e4) X(blade024) X(blade13)
#undef X
}
static std::vector<PF> mtable() { std::vector<PF> t;
#define X(B) mrow<pg::B<MX>>(t);
    PGA_NZ(X) X(multivector)
#undef X
#define X(B) mrow1<pg::B<MX>>(t);
    PGA_1(X)
#undef X
    return t; }
// one operand
static NI void clobber() { volatile char junk[4096]; for (int i = 0; i < 4096; i++) junk[i] = (char)0x5a; }
template<class X, class Y> NI decltype(auto) minus(const X& x, const Y& y) { return x - y; }
template<class X, class Y> NI decltype(auto) plus(const X& x, const Y& y) { return x + y; }
template<class T> NI void eq1(const N& got, const A& want, const char* ta, const N& a, const char* what) { N w = by_name(want); for (int i = 0; i < 16; i++) MC_CHECK((same<T>(got[i], w[i])), "%s of %s%s is %s, expected %s", what, ta, nm(a).c_str(), nm(got).c_str(), nm(w).c_str()); }
template<class T> NI void eqs(ll got, ll want, const char* ta, const N& a, const char* what) { MC_CHECK((same<T>(got, want)), "%s of %s%s is %lld, expected %lld", what, ta, nm(a).c_str(), got, want); }
template<class T, class B> T* coef(B& b, int i) { return nullptr; }
template<class T> T* vc(am::vector3d<T>& v, int i) { return i == 0 ? &v.x : i == 1 ? &v.y : &v.z; }
template<class T> T* cf(pg::blade0<T>& b, int i) { return &b.s; } template<class T> T* cf(pg::blade4<T>& b, int i) { return &b.e0123; } template<class T> T* cf(pg::blade1<T>& b, int i) { return i == S1 ? &b.e0 : vc(b.v, i - S1 - 1); } template<class T> T* cf(pg::blade2E<T>& b, int i) { return vc(b.biE, i - S2E); } template<class T> T* cf(pg::blade2e<T>& b, int i) { return vc(b.bie, i - S2e); } template<class T> T* cf(pg::blade3<T>& b, int i) { return i == S3 ? &b.e123 : vc(b.triP, i - S3 - 1); }
template<class B, class = decltype(std::declval<B>().first())> auto cf(B& b, int i) { typedef std::decay_t<decltype(b.first())> F; typedef std::decay_t<decltype(b.second())> S; return Mk<F>::has(i) ? cf(const_cast<F&>(b.first()), i) : cf(const_cast<S&>(b.second()), i); }
template<class T, class B> std::enable_if_t<std::is_integral<T>::value> uplus(const B& x, const A& p, const char* tn, const N& a) { eq1<T>(read(+x), p, tn, a, "plus"); } template<class T, class B> std::enable_if_t<!std::is_integral<T>::value> uplus(const B&, const A&, const char*, const N&) {}
template<class T, class B> NI void unary(bool few) { const char* tn = Mk<B>::name(); for (auto& a : samples<B>(few)) {
    mc::op(); const B x = Mk<B>::of(a); const A p = of(a); auto sc = [](const A& q) { return q[0]; };
    eq1<T>(read(!x), dual(p), tn, a, "dual"); eq1<T>(read(!!x), p, tn, a, "double dual"); eq1<T>(read(~x), rev(p), tn, a, "reverse"); eq1<T>(read(x.rev()), rev(p), tn, a, "rev"); eq1<T>(read(-x), scale(p, -1), tn, a, "negation"); uplus<T>(x, p, tn, a);
    eqs<T>(val(x.norm2()), sc(prod(p, rev(p), GP)), tn, a, "norm2"); eqs<T>(val(x.ninf2()), sc(prod(dual(p), rev(dual(p)), GP)), tn, a, "ninf2"); eqs<T>(val(x.diff2()), sc(prod(p, p, GP)), tn, a, "diff2");
    for (int k : {0, 1, -2, 3}) { T t = mk<T>(k); eq1<T>(read(x * t), scale(p, k), tn, a, "product with a scalar"); eq1<T>(read(t * x), scale(p, k), tn, a, "product of a scalar"); B y = x; B& r = (y *= t); MC_CHECK(&r == &y, "*= returns another object"); eq1<T>(read(y), scale(p, k), tn, a, "*= scalar"); if (k) { eq1<T>(read((x * t) / t), p, tn, a, "quotient by a scalar"); y /= t; eq1<T>(read(y), p, tn, a, "/= scalar"); } }
    for (auto& b : samples<B>(true)) { B y = x; const B z = Mk<B>::of(b); B& r = (y += z); MC_CHECK(&r == &y, "+= returns another object"); eq1<T>(read(y), add(p, of(b)), tn, a, "+="); y = x; y -= z; eq1<T>(read(y), add(p, of(b), -1), tn, a, "-="); } { B y = x; y += y; eq1<T>(read(y), scale(p, 2), tn, a, "+= itself"); y -= y; eq1<T>(read(y), A{}, tn, a, "-= itself"); }
    for (int i = 0; i < 16; i++) if (Mk<B>::has(i)) { B y = x; const T& own = *cf(y, i); y *= own; eq1<T>(read(y), scale(p, a[i]), tn, a, "*= its own coefficient"); if (a[i]) { const T& own2 = *cf(y, i); B q = y; y = Mk<B>::of(a); y *= mk<T>(a[i]); q = y; (void)own2; T keep = *cf(q, i); B want = q / keep; q /= *cf(q, i); MC_CHECK(read(q) == read(want), "%s%s /= its own coefficient is %s", tn, nm(a).c_str(), nm(read(q)).c_str()); } }
    pg::zero<T> z; decltype(auto) m = minus(z, x); decltype(auto) l = plus(z, x); decltype(auto) r = minus(x, z); decltype(auto) r2 = plus(x, z); clobber(); eq1<T>(read(m), scale(p, -1), tn, a, "zero minus"); eq1<T>(read(l), p, tn, a, "zero plus"); eq1<T>(read(r), p, tn, a, "minus zero"); eq1<T>(read(r2), p, tn, a, "plus zero"); } }
// conversions: a partial constructor keeps everything it is given and clears the rest
template<class T, class B, class P> NI void conv() { for (auto& a : samples<P>(false)) { mc::op(); P x = Mk<P>::of(a); B y(x); eq1<T>(read(y), of(a), Mk<B>::name(), a, "constructor"); B z = Mk<B>::of(N{}); z += y; eq1<T>(read(z), of(a), Mk<B>::name(), a, "constructor"); } }
template<class T> void convs() { using namespace altruct::math::pga; typedef am::vector3d<T> V;
    conv<T, blade02E<T>, blade0<T>>(); conv<T, blade02E<T>, blade2E<T>>(); conv<T, blade02e<T>, blade0<T>>(); conv<T, blade02e<T>, blade2e<T>>(); conv<T, blade22<T>, blade2E<T>>(); conv<T, blade22<T>, blade2e<T>>(); conv<T, blade2E4<T>, blade2E<T>>(); conv<T, blade2E4<T>, blade4<T>>(); conv<T, blade2e4<T>, blade2e<T>>(); conv<T, blade2e4<T>, blade4<T>>();
    conv<T, blade024<T>, blade0<T>>(); conv<T, blade024<T>, blade2E<T>>(); conv<T, blade024<T>, blade2e<T>>(); conv<T, blade024<T>, blade4<T>>(); conv<T, blade024<T>, blade02E<T>>(); conv<T, blade024<T>, blade02e<T>>(); conv<T, blade024<T>, blade22<T>>(); conv<T, blade024<T>, blade2E4<T>>(); conv<T, blade024<T>, blade2e4<T>>(); conv<T, blade13<T>, blade1<T>>(); conv<T, blade13<T>, blade3<T>>(); conv<T, multivector<T>, blade024<T>>(); conv<T, multivector<T>, blade13<T>>();
    for (auto& n : samples<blade1<T>>(false)) { mc::op(); N e{}, v = n; e[S1] = n[S1]; v[S1] = 0; blade1<T> b1(mk<T>(n[S1])); eq1<T>(read(b1), of(e), "blade1", n, "constructor from e0"); blade1<T> b2(w3<T>(n, S1 + 1)); eq1<T>(read(b2), of(v), "blade1", n, "constructor from a vector"); }
    for (auto& n : samples<blade3<T>>(false)) { mc::op(); N e{}, v = n; e[S3] = n[S3]; v[S3] = 0; blade3<T> b1(mk<T>(n[S3])); eq1<T>(read(b1), of(e), "blade3", n, "constructor from e123"); blade3<T> b2(w3<T>(n, S3 + 1)); eq1<T>(read(b2), of(v), "blade3", n, "constructor from a vector"); }
    for (auto& n : samples<multivector<T>>(false)) { mc::op(); blade0<T> b0 = Mk<blade0<T>>::of(n); blade1<T> b1 = Mk<blade1<T>>::of(n); auto E = Mk<blade2E<T>>::of(n); auto e = Mk<blade2e<T>>::of(n); auto b3 = Mk<blade3<T>>::of(n); auto b4 = Mk<blade4<T>>::of(n); eq1<T>(read(multivector<T>(b0, b1, E, e, b3, b4)), of(n), "multivector", n, "constructor"); eq1<T>(read(multivector<T>(b1, b0, E, e, b4, b3)), of(n), "multivector", n, "constructor"); eq1<T>(read(multivector<T>(b1, Mk<blade02E<T>>::of(n), Mk<blade2e4<T>>::of(n), b3)), of(n), "multivector", n, "constructor");
        multivector<T> m = Mk<multivector<T>>::of(n); typedef get<multivector<T>> G; N r{}; rd(r, G::b0(m)); rd(r, G::b1(m)); rd(r, G::b2E(m)); rd(r, G::b2e(m)); rd(r, G::b3(m)); rd(r, G::b4(m)); eq1<T>(r, of(n), "multivector", n, "get"); }
}
template<class B> NI void inverse() { // the product with the inverse is one (norm2 invertible modulo the prime)
    auto S = samples<B>(false); orthogonal<B>(S); for (auto& a : S) { const A p = of(a); const B x = Mk<B>::of(a); if (x.norm2() == mk<MX>(0)) continue; bool line = std::is_same<B, pg::blade22<MX>>::value; if (line && !scalar(prod(p, rev(p), GP))) continue; /* documented: perpendicular parts only */ mc::op(); A one{}; one[0] = 1; eq1<MX>(read(x * x.inv()), one, Mk<B>::name(), a, "product with the inverse"); eq1<MX>(read(x.inv() * x), one, Mk<B>::name(), a, "product of the inverse"); } }
static void pga_one() { int k = mc::choose(4); mc::state(mc::hash(k));
#define X(B) unary<ll, pg::B<ll>>(false);
    if (k == 0) { PGA_NZ(X) X(multivector) }
#undef X
#define X(B) unary<MX, pg::B<MX>>(true);
    if (k == 1) { PGA_NZ(X) X(multivector) }
#undef X
    if (k == 2) { convs<ll>(); convs<MX>(); }
#define X(B) inverse<pg::B<MX>>();
    if (k == 3) { X(blade0) X(blade1) X(blade2E) X(blade3) X(blade02E) X(blade02e) X(blade22) X(blade2E4) X(blade024) X(blade13) }
#undef X
}
// planes, lines, points and motions
typedef std::array<int, 3> I3; static I3 pick3(int lo, int hi) { I3 r; for (auto& x : r) x = lo + mc::choose(hi - lo + 1); return r; } static std::vector<I3> box(int lo, int hi) { std::vector<I3> r; for (int x = lo; x <= hi; x++) for (int y = lo; y <= hi; y++) for (int z = lo; z <= hi; z++) r.push_back({x, y, z}); return r; }
static ll dt(const I3& a, const I3& b) { return (ll)a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; } static I3 cr(const I3& a, const I3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; } static I3 pl(const I3& a, const I3& b, int s = 1) { return {a[0] + s * b[0], a[1] + s * b[1], a[2] + s * b[2]}; }
static bool zero(const N& n) { for (ll x : n) if (x) return false; return true; }
static void pga_geometry() {
    typedef am::vector3d<ll> V; auto v = [](const I3& a) { return V(a[0], a[1], a[2]); }; I3 u = pick3(-1, 2); if (u == I3{0, 0, 0}) mc::cut(); int d = mc::choose(4) - 1; mc::state(mc::hash(u[0], u[1], u[2], d)); auto p = pg::plane<ll>(v(u), d); I3 P0 = {d, 1, -2}; auto L = pg::line<ll>(v(u), v(P0)); auto T = pg::translator<ll>(v(u) * 2ll); I3 t2 = pl(u, u);
    for (auto& X : box(-2, 2)) { mc::op(); auto Q = pg::point<ll>(v(X)); auto Q3 = pg::point<ll>(v(X) * 3ll, 3); MC_CHECK(read(Q3) == read(Q * 3ll), "a point with homogenous coordinate 3"); bool on = dt(u, X) == d; MC_CHECK(zero(read(p ^ Q)) == on && zero(read(p ^ Q3)) == on, "the point %d,%d,%d and the plane", X[0], X[1], X[2]); bool onl = cr(pl(X, P0, -1), u) == I3{0, 0, 0}; MC_CHECK(zero(read(L | Q)) == onl, "the point %d,%d,%d and the line", X[0], X[1], X[2]);
        MC_CHECK(read(Q % T) == read(pg::point<ll>(v(pl(X, t2)))), "translated point %d,%d,%d is %s", X[0], X[1], X[2], nm(read(Q % T)).c_str()); auto Qr = Q % p; /* reflection in a plane: X - 2 n (n.X - d) / n^2 */ N r = read(Qr); ll nn = dt(u, u), k = dt(u, X) - d; N want{}; want[S3] = -nn; for (int i = 0; i < 3; i++) want[S3 + 1 + i] = X[i] * nn - 2 * u[i] * k; MC_CHECK(r == want || r == by_name(scale(of(want), -1)), "reflected point %d,%d,%d is %s", X[0], X[1], X[2], nm(r).c_str()); }
    auto p2 = pg::plane<ll>(v({u[1] + 1, u[2], u[0]}), 1); (void)p2; { auto pt = p % T; MC_CHECK(read(pt) == read(pg::plane<ll>(v(u), d + dt(u, t2))), "translated plane is %s", nm(read(pt)).c_str()); } { auto lt = L % T; MC_CHECK(read(lt) == read(pg::line<ll>(v(u), v(pl(P0, t2)))), "translated line"); for (auto& w : box(-1, 1)) { auto Tw = pg::translator<ll>(v(pl(w, w))); MC_CHECK(read(L % Tw) == read(pg::line<ll>(v(u), v(pl(P0, pl(w, w))))), "translated line"); MC_CHECK(read(T * Tw)[S2e] == t2[0] / 2 + w[0], "composition of translations"); } }
}
static void pga_rotor() { // rotations about axes through the origin with rational sines
    typedef am::vector3d<double> V; static const I3 AX[6] = {{1, 0, 0}, {0, 2, 0}, {0, 0, 1}, {1, 2, 2}, {-2, 3, 6}, {2, -1, -2}}; static const double CS[6][2] = {{1, 0}, {0, 1}, {0.6, 0.8}, {0.8, -0.6}, {-5 / 13., 12 / 13.}, {0.28, 0.96}}; int i = mc::choose(6), j = mc::choose(6); mc::state(mc::hash(i, j)); double c = CS[j][0], s = CS[j][1], len = std::sqrt((double)dt(AX[i], AX[i])), n[3]; for (int k = 0; k < 3; k++) n[k] = AX[i][k] / len; V ax(AX[i][0], AX[i][1], AX[i][2]); auto R = pg::rotor<double>(ax, c, s); auto R2 = pg::rotor<double>(ax, 2 * std::atan2(s, c)); double C = c * c - s * s, S = 2 * c * s;
    for (auto& X : box(-2, 2)) { mc::op(); double nx = n[0] * X[0] + n[1] * X[1] + n[2] * X[2], w[3], x[3] = {(double)X[0], (double)X[1], (double)X[2]}; for (int k = 0; k < 3; k++) { int a = (k + 1) % 3, b = (k + 2) % 3; w[k] = x[k] * C + (n[a] * x[b] - n[b] * x[a]) * S + n[k] * nx * (1 - C); } auto Q = pg::point<double>(V(x[0], x[1], x[2])); for (auto& r : {R, R2}) { auto q = Q % r; MC_CHECK(std::fabs(q.e123 - 1) < 1e-9 && std::fabs(-q.triP.x - w[0]) < 1e-9 && std::fabs(-q.triP.y - w[1]) < 1e-9 && std::fabs(-q.triP.z - w[2]) < 1e-9, "point %d,%d,%d rotated about %d,%d,%d is %g,%g,%g, expected %g,%g,%g", X[0], X[1], X[2], AX[i][0], AX[i][1], AX[i][2], -q.triP.x, -q.triP.y, -q.triP.z, w[0], w[1], w[2]); } } }

// ---- Cl(3,0): the same multiplication without e0; components s yz zx xy / x y z w
template<class T> void cr(A& a, const am::cl3::rotor<T>& r) { a[0] = val(r.s); a[12] = val(r.yz); a[10] = -val(r.zx); a[6] = val(r.xy); } template<class T> void cr(A& a, const am::cl3::vector<T>& v) { a[2] = val(v.x); a[4] = val(v.y); a[8] = val(v.z); a[14] = val(v.w); } template<class T> void cr(A& a, const am::cl3::multivector<T>& m) { cr(a, m.r); cr(a, m.v); } static void cr(A& a, ll s) { a[0] = s; }
template<class B> A cread(const B& b) { A a{}; cr(a, b); return a; }
static const int CM[8] = {0, 12, 10, 6, 2, 4, 8, 14}; static std::string cn(const A& a) { std::string s; static const char* n[8] = {"s", "yz", "zx", "xy", "x", "y", "z", "w"}; for (int i = 0; i < 8; i++) if (a[CM[i]]) s += " " + std::to_string(CM[i] == 10 ? -a[10] : a[CM[i]]) + n[i]; return "(" + s + ")"; }
static void ceq(const A& g, const A& w, const char* what, const A& a, const A& b) { MC_CHECK(g == w, "%s of %s and %s is %s, expected %s", what, cn(a).c_str(), cn(b).c_str(), cn(g).c_str(), cn(w).c_str()); }
template<class T> struct Cl { typedef am::cl3::rotor<T> R; typedef am::cl3::vector<T> V; typedef am::cl3::multivector<T> M;
    static T g(const A& a, int m) { return T(m == 10 ? -a[m] : a[m]); } static R r(const A& a) { return R(g(a, 0), g(a, 12), g(a, 10), g(a, 6)); } static V v(const A& a) { return V(g(a, 2), g(a, 4), g(a, 8), g(a, 14)); } static M m(const A& a) { return M(r(a), v(a)); } };
static A crev(A a) { for (int i = 0; i < 16; i++) if (gr(i) == 2 || gr(i) == 3) a[i] = -a[i]; return a; } static A cconj(A a) { for (int i = 0; i < 16; i++) if (gr(i) == 1 || gr(i) == 2) a[i] = -a[i]; return a; }
static std::vector<A> csamples(int lo, int hi) { std::vector<A> r; A d{}; static const int D[8] = {2, -3, 5, 4, -1, 3, -2, 7}; for (int i = lo; i < hi; i++) { A a{}; a[CM[i]] = 1; r.push_back(a); d[CM[i]] = D[i]; for (int j = i + 1; j < hi; j++) { A b{}; b[CM[i]] = 2; b[CM[j]] = -3; r.push_back(b); } } r.push_back(d); r.push_back(A{}); return r; }
#define CB(OP, KIND) ceq(cread(x OP y), want, #OP, a, b)
template<class X, class Y> NI void cmul(const X& x, const Y& y, const A& a, const A& b) { mc::op(); ceq(cread(x * y), prod(a, b, GP), "*", a, b); }
template<class X, class Y> NI void cadd(const X& x, const Y& y, const A& a, const A& b) { mc::op(); ceq(cread(x + y), add(a, b), "+", a, b); ceq(cread(x - y), add(a, b, -1), "-", a, b); }
template<class X, class Y> NI void cinm(X x, const Y& y, const A& a, const A& b) { mc::op(); X& r = (x *= y); MC_CHECK(&r == &x, "*= returns another object"); ceq(cread(x), prod(a, b, GP), "*=", a, b); }
template<class X, class Y> NI void cina(const X& x0, const Y& y, const A& a, const A& b) { mc::op(); X x = x0; X& r = (x += y); MC_CHECK(&r == &x, "+= returns another object"); ceq(cread(x), add(a, b), "+=", a, b); x = x0; x -= y; ceq(cread(x), add(a, b, -1), "-=", a, b); }
static bool near(const am::cl3::multivector<double>& a, const am::cl3::multivector<double>& b) { auto d = a - b; double s = 0; for (double x : {d.r.s, d.r.yz, d.r.zx, d.r.xy, d.v.x, d.v.y, d.v.z, d.v.w}) s = std::max(s, std::fabs(x)); return s < 1e-9; }
static double nrm(const A& a) { double s = 0; for (ll x : a) s += (double)x * x; return s; }
template<class X> void self(const X& x0, const A& a) { { X x = x0; x *= x; ceq(cread(x), prod(a, a, GP), "*= itself", a, a); } { X x = x0; x += x; ceq(cread(x), scale(a, 2), "+= itself", a, a); x -= x; ceq(cread(x), A{}, "-= itself", a, a); } }
static void cl3_products() {
    typedef Cl<ll> K; static const auto SR = csamples(0, 4), SV = csamples(4, 8), SM = csamples(0, 8); const A& a = SM[mc::choose((int)SM.size())]; mc::H h; h.range(a); mc::state(h); auto M = K::m(a); A ar = a, av = a; for (int m : {2, 4, 8, 14}) ar[m] = 0; for (int m : {0, 12, 10, 6}) av[m] = 0; auto R = K::r(ar); auto V = K::v(av);
    for (auto& b : SR) { auto y = K::r(b); cmul(M, y, a, b); cmul(R, y, ar, b); cmul(V, y, av, b); cadd(M, y, a, b); cadd(R, y, ar, b); cadd(V, y, av, b); cinm(M, y, a, b); cinm(R, y, ar, b); cinm(V, y, av, b); cina(M, y, a, b); cina(R, y, ar, b); }
    for (auto& b : SV) { auto y = K::v(b); cmul(M, y, a, b); cmul(R, y, ar, b); cmul(V, y, av, b); cadd(M, y, a, b); cadd(R, y, ar, b); cadd(V, y, av, b); cinm(M, y, a, b); cina(M, y, a, b); cina(V, y, av, b); }
    for (auto& b : SM) { auto y = K::m(b); cmul(M, y, a, b); cmul(R, y, ar, b); cmul(V, y, av, b); cadd(M, y, a, b); cadd(R, y, ar, b); cadd(V, y, av, b); cinm(M, y, a, b); cina(M, y, a, b);
        bool eq = a == b; MC_CHECK((M == y) == eq && (M != y) == !eq && (M < y) + (M > y) + eq == 1 && (M <= y) == !(M > y) && (M >= y) == !(M < y) && (y < M) == (M > y), "comparison of %s and %s", cn(a).c_str(), cn(b).c_str()); auto lex = [](const A& p, const A& q, int lo, int hi) { for (int i = lo; i < hi; i++) { ll u = CM[i] == 10 ? -p[CM[i]] : p[CM[i]], w = CM[i] == 10 ? -q[CM[i]] : q[CM[i]]; if (u != w) return u < w; } return false; }; A br = b, bv = b; for (int m : {2, 4, 8, 14}) br[m] = 0; for (int m : {0, 12, 10, 6}) bv[m] = 0; auto yr = K::r(br); auto yv = K::v(bv); MC_CHECK((M < y) == lex(a, b, 0, 8), "order of multivectors"); MC_CHECK((R < yr) == lex(ar, br, 0, 4) && (R > yr) == lex(br, ar, 0, 4) && (R <= yr) == !lex(br, ar, 0, 4) && (R >= yr) == !lex(ar, br, 0, 4) && (R == yr) == (ar == br) && (R != yr) == (ar != br), "order of rotors"); MC_CHECK((V < yv) == lex(av, bv, 4, 8) && (V > yv) == lex(bv, av, 4, 8) && (V <= yv) == !lex(bv, av, 4, 8) && (V >= yv) == !lex(av, bv, 4, 8) && (V == yv) == (av == bv) && (V != yv) == (av != bv), "order of vectors"); }
    self(M, a); self(R, ar); { auto x = V; x += x; ceq(cread(x), scale(av, 2), "+= itself", av, av); }
    for (int k : {0, 1, -2, 3}) { ll t = k; ceq(cread(M * t), scale(a, k), "* scalar", a, a); ceq(cread(R * t), scale(ar, k), "* scalar", ar, ar); ceq(cread(V * t), scale(av, k), "* scalar", av, av); ceq(cread(t * M), scale(a, k), "scalar *", a, a); ceq(cread(t * R), scale(ar, k), "scalar *", ar, ar); ceq(cread(t * V), scale(av, k), "scalar *", av, av); if (k) { ceq(cread((M * t) / t), a, "/ scalar", a, a); ceq(cread((R * t) / t), ar, "/ scalar", ar, ar); ceq(cread((V * t) / t), av, "/ scalar", av, av); auto x = M * t; x /= t; ceq(cread(x), a, "/= scalar", a, a); } auto x = M; x *= t; ceq(cread(x), scale(a, k), "*= scalar", a, a); }
    { auto x = M; x *= x.r.s; ceq(cread(x), scale(a, M.r.s), "*= own scalar", a, a); x = M; x *= x.v.w; ceq(cread(x), scale(a, M.v.w), "*= own w", a, a); x = M; x *= x.r; ceq(cread(x), prod(a, ar, GP), "*= own rotor", a, ar); x = M; x *= x.v; ceq(cread(x), prod(a, av, GP), "*= own vector", a, av); x = M; x += x.r; ceq(cread(x), add(a, ar), "+= own rotor", a, ar); auto r = R; r *= r.yz; ceq(cread(r), scale(ar, R.yz), "*= own yz", ar, ar); r = R; r *= r.s; ceq(cread(r), scale(ar, R.s), "*= own s", ar, ar); auto v = V; v *= v.x; ceq(cread(v), scale(av, V.x), "*= own x", av, av); v = V; v *= v.y; ceq(cread(v), scale(av, V.y), "*= own y", av, av); if (V.x) { v = V * V.x; v /= v.x; V.x = V.x; for (ll q : {v.x}) MC_CHECK(q == 1, "/= own x"); } if (R.s) { r = R * R.s; auto w = r / r.s; r /= r.s; MC_CHECK(r == w, "/= own s"); } }
    ceq(cread(-M), scale(a, -1), "negation", a, a); ceq(cread(M.rev()), crev(a), "rev", a, a); ceq(cread(M.conj()), cconj(a), "conj", a, a); ceq(cread(R.rev()), crev(ar), "rev", ar, ar); ceq(cread(R.conj()), cconj(ar), "conj", ar, ar); ceq(cread(V.rev()), crev(av), "rev", av, av); ceq(cread(V.conj()), cconj(av), "conj", av, av); ceq(cread(-R), scale(ar, -1), "negation", ar, ar); ceq(cread(-V), scale(av, -1), "negation", av, av); MC_CHECK(R.abs2() == (ll)nrm(ar) && V.abs2() == (ll)nrm(av), "abs2");
    typedef K::M CM_; ceq(cread(CM_(R)), ar, "multivector of a rotor", ar, ar); ceq(cread(CM_(V)), av, "multivector of a vector", av, av); ceq(cread(am::zeroOf(M)), A{}, "zero", a, a); A one{}; one[0] = 1; ceq(cread(am::identityOf(M)), one, "one", a, a); ceq(cread(am::identityOf(R)), one, "one", a, a); ceq(cread(am::zeroOf(R)), A{}, "zero", a, a); ceq(cread(am::zeroOf(V)), A{}, "zero", a, a); ceq(cread(am::conjugateT<CM_>::of(M)), cconj(a), "conjugate", a, a); A seven{}; seven[0] = 7; ceq(cread(am::castOf(M, 7)), seven, "cast", a, a); ceq(cread(am::castOf(R, 7)), seven, "cast", a, a);
}
static void cl3_inverse() { // every multivector with coefficients -1, 0, 1 that has an inverse: M conj(M) = p + q e123 is not zero
    typedef Cl<double> K; A a{}; int nz = 0; for (int i = 0; i < 8; i++) { int c = mc::choose(3) - 1; a[CM[i]] = c; nz += c != 0; } mc::H h; h.range(a); mc::state(h); mc::op(); A det = prod(a, cconj(a), GP); if (!det[0] && !det[14]) return; auto M = K::m(a); K::M one(K::R(1, 0, 0, 0)); MC_CHECK(near(M * M.inv(), one) && near(M.inv() * M, one), "inverse of %s", cn(a).c_str()); MC_CHECK(near(M / M, one), "%s divided by itself", cn(a).c_str()); auto x = M; x /= x; MC_CHECK(near(x, one), "%s /= itself", cn(a).c_str()); MC_CHECK(near(6.0 / M, M.inv() * 6.0), "scalar divided by %s", cn(a).c_str());
    static const auto S = csamples(0, 8); for (size_t k = 0; k < S.size(); k += mc::tier(5, 1)) { auto& b = S[k]; auto y = K::m(b); MC_CHECK(near((y / M) * M, y), "%s / %s", cn(b).c_str(), cn(a).c_str()); x = y; x /= M; MC_CHECK(near(x, y / M), "/="); MC_CHECK(near((y.r / M) * M, K::M(y.r)), "rotor / %s", cn(a).c_str()); MC_CHECK(near((y.v / M) * M, K::M(y.v)), "vector / %s", cn(a).c_str());
        auto R = M.r; auto V = M.v; if (R.abs2() > 0) { MC_CHECK(near((y / R) * R, y), "/ rotor"); MC_CHECK(near(K::M((y.r / R) * R), K::M(y.r)), "rotor / rotor"); MC_CHECK(near(K::M((y.v / R) * R), K::M(y.v)), "vector / rotor"); x = y; x /= R; MC_CHECK(near(x, y / R), "/= rotor"); x = y; x.r = R; auto w = x / x.r; x /= x.r; MC_CHECK(near(x, w), "/= own rotor"); auto r = y.r; r /= R; MC_CHECK(near(K::M(r), K::M(y.r / R)), "rotor /= rotor"); auto v = y.v; v /= R; MC_CHECK(near(K::M(v), K::M(y.v / R)), "vector /= rotor"); MC_CHECK(near(K::M(2.0 / R), K::M(R.inv() * 2.0)), "scalar / rotor"); } if (V.abs2() > 0) { MC_CHECK(near((y / V) * V, y), "/ vector"); MC_CHECK(near(K::M((y.r / V) * V), K::M(y.r)), "rotor / vector"); MC_CHECK(near(K::M((y.v / V) * V), K::M(y.v)), "vector / vector"); x = y; x /= V; MC_CHECK(near(x, y / V), "/= vector"); MC_CHECK(near(K::M(2.0 / V), K::M(V.inv() * 2.0)), "scalar / vector"); } }
}
static void cl3_motion() { typedef am::cl3::vector<double> V; typedef am::cl3::multivector<double> M; I3 u = pick3(-2, 2), w = pick3(-2, 2); if (u == I3{0, 0, 0} || w == I3{0, 0, 0}) mc::cut(); mc::state(mc::hash(u[0], u[1], u[2], w[0], w[1], w[2])); mc::op(); V a(u[0], u[1], u[2]), b(w[0], w[1], w[2]); double k = 2.0 * dt(u, w) / dt(w, w); V f = am::cl3::make_reflector(b); V g = a.reflect(f); MC_CHECK(near(M(g), M(V(u[0] - k * w[0], u[1] - k * w[1], u[2] - k * w[2]))), "%d,%d,%d reflected along %d,%d,%d is %g,%g,%g", u[0], u[1], u[2], w[0], w[1], w[2], g.x, g.y, g.z);
    if (cr(u, w) == I3{0, 0, 0} && dt(u, w) < 0) return; auto r = am::cl3::make_rotor(a, b); MC_CHECK(std::fabs(r.abs2() - 1) < 1e-9, "the rotor is not normalized"); double la = std::sqrt((double)dt(u, u)), lb = std::sqrt((double)dt(w, w)); MC_CHECK(near(M(a.rotate(r)), M(b * (la / lb))), "%d,%d,%d rotated towards %d,%d,%d", u[0], u[1], u[2], w[0], w[1], w[2]); I3 n = cr(u, w); V nn(n[0], n[1], n[2]); MC_CHECK(near(M(nn.rotate(r)), M(nn)), "the axis moved"); MC_CHECK(near(M(b.rotate(r.rev())), M(a * (lb / la))), "rotation back"); MC_CHECK(near(M(a.unit() * la), M(a)) && std::fabs(a.unit().abs1() - 1) < 1e-9, "unit"); }
// ---- plain vectors
static void vectors() {
    typedef am::vector3d<ll> V3; typedef am::vector2d<ll> V2; I3 a = pick3(-2, 2); mc::state(mc::hash(a[0], a[1], a[2])); V3 x(a[0], a[1], a[2]); V2 p(a[0], a[1]); auto is3 = [](const V3& v, const I3& w) { return v.x == w[0] && v.y == w[1] && v.z == w[2]; }; auto is2 = [](const V2& v, ll X, ll Y) { return v.x == X && v.y == Y; };
#define CK(c) MC_CHECK(c, "%s for %d,%d,%d and %d,%d,%d", #c, a[0], a[1], a[2], b[0], b[1], b[2])
    for (auto& b : box(-2, 2)) { mc::op(); V3 y(b[0], b[1], b[2]); V2 q(b[0], b[1]); I3 m = {a[0] * b[0], a[1] * b[1], a[2] * b[2]}; CK(is3(x + y, pl(a, b))); CK(is3(x - y, pl(a, b, -1))); CK(is3(x * y, m)); CK(is3((x ^ y), cr(a, b))); CK((x & y) == dt(a, b)); CK(is3(-x, pl({0, 0, 0}, a, -1))); CK(is3(+x, a)); V3 t = x; t += y; CK(is3(t, pl(a, b))); t = x; t -= y; CK(is3(t, pl(a, b, -1))); t = x; t *= y; CK(is3(t, m)); t = x; t ^= y; CK(is3(t, cr(a, b))); t = x; t ^= t; CK(is3(t, {0, 0, 0})); if (m[0] && m[1] && m[2]) { CK(is3(V3(m[0], m[1], m[2]) / y, a)); t = V3(m[0], m[1], m[2]); t /= y; CK(is3(t, a)); t /= t; CK(is3(t, {1, 1, 1})); } CK((x == y) == (a == b)); CK((x != y) == (a != b)); CK((x < y) == (a < b)); CK((x > y) == (a > b)); CK((x <= y) == (a <= b)); CK((x >= y) == (a >= b)); CK(x.abs2() == dt(a, a));
        CK(is2(p + q, a[0] + b[0], a[1] + b[1])); CK(is2(p - q, a[0] - b[0], a[1] - b[1])); CK(is2(p * q, m[0], m[1])); CK((p ^ q) == a[0] * b[1] - a[1] * b[0]); CK((p & q) == m[0] + m[1]); CK(is2(-p, -a[0], -a[1])); V2 s = p; s += q; CK(is2(s, a[0] + b[0], a[1] + b[1])); s = p; s -= q; CK(is2(s, a[0] - b[0], a[1] - b[1])); s = p; s *= q; CK(is2(s, m[0], m[1])); if (m[0] && m[1]) { CK(is2(V2(m[0], m[1]) / q, a[0], a[1])); s = V2(m[0], m[1]); s /= q; CK(is2(s, a[0], a[1])); s /= s; CK(is2(s, 1, 1)); } { int c = a[0] != b[0] ? (a[0] < b[0] ? -1 : 1) : a[1] != b[1] ? (a[1] < b[1] ? -1 : 1) : 0; CK((p == q) == !c && (p != q) == !!c && (p < q) == (c < 0) && (p > q) == (c > 0) && (p <= q) == (c <= 0) && (p >= q) == (c >= 0)); } CK(is2(p.rot(q), a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])); CK(is2(p.rot(q).irot(q), a[0] * (b[0] * b[0] + b[1] * b[1]), a[1] * (b[0] * b[0] + b[1] * b[1]))); CK(is2(p.perp(), -a[1], a[0]) && (p & p.perp()) == 0); CK(p.abs2() == a[0] * a[0] + a[1] * a[1] && p.diff2() == a[0] * a[0] - a[1] * a[1]);
        for (auto& c : box(-1, 1)) { V3 z(c[0], c[1], c[2]); CK(x.dot(y, z) == dt(pl(b, a, -1), pl(c, a, -1))); CK(is3(x.cross(y, z), cr(pl(b, a, -1), pl(c, a, -1)))); V2 r(c[0], c[1]); I3 b2 = {b[0] - a[0], b[1] - a[1], 0}, c2 = {c[0] - a[0], c[1] - a[1], 0}; CK(p.dot(q, r) == dt(b2, c2)); CK(p.cross(q, r) == cr(b2, c2)[2]); } }
    I3 b = a; for (int k : {-2, 0, 3}) { ll t = k; CK(is3(x * t, {k * a[0], k * a[1], k * a[2]})); CK(is3(t * x, {k * a[0], k * a[1], k * a[2]})); CK(is2(p * t, k * a[0], k * a[1])); if (k) { CK(is3((x * t) / t, a)); CK(is2((p * t) / t, a[0], a[1])); V3 y = x; y *= t; y /= t; CK(is3(y, a)); V2 q = p; q *= t; q /= t; CK(is2(q, a[0], a[1])); } }
    { V3 y = x; y *= y.x; CK(is3(y, {a[0] * a[0], a[1] * a[0], a[2] * a[0]})); y = x; y *= y.y; CK(is3(y, {a[0] * a[1], a[1] * a[1], a[2] * a[1]})); if (a[0]) { y = V3(a[0], a[0] * a[1], a[0] * a[2]); y /= y.x; CK(is3(y, {1, a[1], a[2]})); } V2 q = p; q *= q.x; CK(is2(q, a[0] * a[0], a[1] * a[0])); if (a[0]) { q = V2(a[0], a[0] * a[1]); q /= q.x; CK(is2(q, 1, a[1])); } }
    { typedef am::vector3d<double> D; typedef am::vector2d<double> E; D d(a[0], a[1], a[2]); E e(a[0], a[1]); double l3 = std::sqrt((double)dt(a, a)), l2 = std::sqrt((double)(a[0] * a[0] + a[1] * a[1])); CK(std::fabs(d.abs1() - l3) < 1e-12 && std::fabs(e.abs1() - l2) < 1e-12); if (l3) CK(std::fabs(d.unit().abs1() - 1) < 1e-12 && std::fabs((d.unit() & d) - l3) < 1e-12); else CK(d.unit() == D() && d.unit(D(1, 2, 3)) == D(1, 2, 3)); if (l2) CK(std::fabs(e.unit().abs1() - 1) < 1e-12 && std::fabs((e.unit() & e) - l2) < 1e-12); else CK(e.unit() == E() && e.unit(E(1, 2)) == E(1, 2)); D::EPS = 0.5; E::EPS = 0.5; for (auto& c : box(-2, 2)) { D y = d + D(c[0], c[1], c[2]) * 0.5; E q = e + E(c[0], c[1]) * 0.5; bool n3 = std::abs(c[0]) <= 1 && std::abs(c[1]) <= 1 && std::abs(c[2]) <= 1, n2 = std::abs(c[0]) <= 1 && std::abs(c[1]) <= 1; CK(d.near(y) == n3 && y.near(d) == n3 && e.near(q) == n2 && q.near(e) == n2); } D::EPS = 0; E::EPS = 0; am::vector2d<int, int> pay(1, 2, 7); am::vector3d<int, int> pay3(1, 2, 3, 8); CK(pay.data == 7 && pay3.data == 8); }
}
template<int D> void vecN() { typedef am::vectorNd<int, D> W; std::vector<int> a(D); for (auto& t : a) t = mc::choose(mc::tier(4, 5)) - 2; mc::state(mc::H()(D).range(a)); std::array<int, D> arr; std::copy(a.begin(), a.end(), arr.begin()); W x(arr); int tot = 1; for (int i = 0; i < D; i++) tot *= 5;
    for (int c = 0; c < tot; c++) { mc::op(); std::vector<int> b(D); for (int i = 0, t = c; i < D; i++, t /= 5) b[i] = t % 5 - 2; W y; for (int i = 0; i < D; i++) y[i] = b[i]; bool nz = std::find(b.begin(), b.end(), 0) == b.end();
#define VN(OP) { W r = x OP y, s = x; s OP##= y; for (int i = 0; i < D; i++) MC_CHECK(r[i] == (a[i] OP b[i]) && s[i] == r[i], "%s " #OP " %s", mc::show(a).c_str(), mc::show(b).c_str()); for (int j = 0; j < D; j++) { W u = x OP y[j]; s = x; s OP##= y[j]; W o = x; if (nz && b[j] && a[j]) { o OP##= o[j]; for (int i = 0; i < D; i++) MC_CHECK(o[i] == (a[i] OP a[j]), "%s " #OP "= its own element", mc::show(a).c_str()); } for (int i = 0; i < D; i++) MC_CHECK(u[i] == (a[i] OP b[j]) && s[i] == u[i], "%s " #OP " %d", mc::show(a).c_str(), b[j]); } }
        VN(+) VN(-) VN(*) if (nz) { VN(/) VN(%) } int cm = a < b ? -1 : a > b ? 1 : 0; MC_CHECK(x.cmp(y) == cm && (x < y) == (cm < 0) && (x > y) == (cm > 0) && (x <= y) == (cm <= 0) && (x >= y) == (cm >= 0) && (x == y) == !cm && (x != y) == !!cm, "comparison of %s and %s", mc::show(a).c_str(), mc::show(b).c_str()); }
    W n = -x, one = am::identityOf(x), z = am::zeroOf(x), d, f(7), cp(x); int s2 = 0; for (int i = 0; i < D; i++) { s2 += a[i] * a[i]; MC_CHECK(n[i] == -a[i] && one[i] == 1 && z[i] == 0 && d[i] == 0 && f[i] == 7 && cp[i] == a[i], "basic vectors"); } MC_CHECK(x.abs2() == s2 && x.size() == D, "abs2"); W as; as.assign(a.data()); MC_CHECK(as == x, "assign"); W q = x; q += q; q -= x; MC_CHECK(q == x, "+= itself"); }
static void vec1() { vecN<1>(); } static void vec2() { vecN<2>(); } static void vec3() { vecN<3>(); } static void vec4() { vecN<4>(); }
static void pga_int() { static const auto t = table<ll>(); int i = mc::choose((int)t.size()); mc::state(mc::hash(i)); t[i](false); }
static void pga_sandwich() { static const auto t = stable<ll>(); int i = mc::choose((int)t.size()); mc::state(mc::hash(i)); t[i](false); }
static void pga_mod() { static const auto t = mtable(); int i = mc::choose((int)t.size()); mc::state(mc::hash(i)); t[i](true); }
MC_SETUP(setup) { mc::add("pga_int", pga_int, 2); mc::add("pga_sandwich", pga_sandwich, 2); mc::add("pga_mod", pga_mod); mc::add("pga_one", pga_one); mc::add("pga_geometry", pga_geometry); mc::add("pga_rotor", pga_rotor); mc::add("cl3_products", cl3_products, 2); mc::add("cl3_inverse", cl3_inverse, 4); mc::add("cl3_motion", cl3_motion, 2); mc::add("vectors", vectors, 2); mc::add("vec1", vec1); mc::add("vec2", vec2); mc::add("vec3", vec3); mc::add("vec4", vec4, 2); }
