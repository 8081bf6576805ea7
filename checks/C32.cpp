// C32 modular numbers: every pair of residues of every small modulus in every integer type and storage; boundary residues of moduli near the type limits.
// MC_BOUNDS: every modulus 1..127 (int8) / 1..255 (uint8) and 1..40 (quick) / 1..100 (thorough) in every other integer type (16/32/64-bit signed and unsigned, long long) with every pair of residues, for instance, static (modulus changed at run time) and constant storage; about 30 moduli near and around each type's limits (and around 2^16, 2^31, 2^32, 2^63) with every pair from a grid of boundary residues; conversion from every 8-bit value and a boundary grid of every integer type into every modulus; powers with every exponent 0..20 and boundary exponents; inv/div against the defining equation
// MC_ASSUME: operands are residues of the same modulus (mixed moduli only as documented); division is required to be right when the divisor is invertible, or divides, or a quotient exists; comparison is by canonical residue
#include "mc.h"
#include <stdint.h>
#include <vector>
#include <set>
#include <limits>
#include "altruct/structure/math/modulo.h"
using namespace altruct::math; typedef unsigned __int128 U; typedef __int128 W;
static std::string S(W x) { if (x == 0) return "0"; bool n = x < 0; U u = n ? 0 - (U)x : (U)x; std::string s; while (u) { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; } return n ? "-" + s : s; }
#define P(x) S((W)(x)).c_str()
static U G(U a, U b) { while (b) { U r = a % b; a = b; b = r; } return a; }
static U mulm(U a, U b, U m) { return a * b % m; }
static U powm(U a, U e, U m) { U r = 1 % m; a %= m; for (; e; e >>= 1) { if (e & 1) r = mulm(r, a, m); a = mulm(a, a, m); } return r; }
template<class T> static const char* name() { static std::string s = std::string(std::numeric_limits<T>::is_signed ? "int" : "uint") + std::to_string(8 * sizeof(T)); return s.c_str(); }
template<class T, class Mod> static void arith(T m, T a, T b, const Mod& x, const Mod& y) {
    U M = (U)m, A = (U)a, B = (U)b; mc::op(); MC_CHECK((U)x.v == A && (U)y.v == B, "construction of %s mod %s (%s) gives %s", P(a), P(m), name<T>(), P(x.v));
    #define R(e, want, op) do { auto r_ = (e); MC_CHECK(r_.v >= 0 && (U)r_.v == (U)(want) && (U)r_.M() == M, "%s " op " %s mod %s (%s) is %s, expected %s", P(a), P(b), P(m), name<T>(), P(r_.v), P(want)); } while (0)
    R(x + y, (A + B) % M, "+"); R(x - y, (A + M - B) % M, "-"); R(x * y, mulm(A, B, M), "*"); R(-x, (M - A) % M, "neg"); R(x.neg(), (M - A) % M, "neg()"); { Mod t = x; t += y; R(t, (A + B) % M, "+="); t = x; t -= y; R(t, (A + M - B) % M, "-="); t = x; t *= y; R(t, mulm(A, B, M), "*="); t = x; t += t; R(t, (A + A) % M, "+= itself"); t = x; t -= t; R(t, 0, "-= itself"); t = x; t *= t; R(t, mulm(A, A, M), "*= itself"); }
    U g = G(B, M); if (g == 1) { auto i = y.inv(); MC_CHECK(i.v >= 0 && (U)i.v < M && mulm((U)i.v, B, M) == 1 % M, "inverse of %s mod %s (%s) is %s", P(b), P(m), name<T>(), P(i.v)); auto q = x / y; MC_CHECK(q.v >= 0 && (U)q.v < M && mulm((U)q.v, B, M) == A, "%s / %s mod %s (%s) is %s", P(a), P(b), P(m), name<T>(), P(q.v)); Mod t = x; t /= y; MC_CHECK(t == q, "/= differs from /"); if (A == B) { t = x; t /= t; R(t, 1 % M, "/= itself"); } }
    else if (A % g == 0) { auto q = x / y; MC_CHECK(q.v >= 0 && (U)q.v < M && mulm((U)q.v, B, M) == A, "%s / %s mod %s (%s), a divisible pair, is %s", P(a), P(b), P(m), name<T>(), P(q.v)); }
    MC_CHECK((x == y) == (A == B) && (x != y) == (A != B) && (x < y) == (A < B) && (x > y) == (A > B) && (x <= y) == (A <= B) && (x >= y) == (A >= B), "comparison of %s and %s mod %s (%s)", P(a), P(b), P(m), name<T>());
    if (a == b) { R(identityOf(x), 1 % M, "identity"); R(zeroOf(x), 0, "zero"); for (int e = 0; e <= 20; e++) { auto p = powT(x, e); MC_CHECK((U)p.v == powm(A, (U)e, M), "%s^%d mod %s (%s) is %s", P(a), e, P(m), name<T>(), P(p.v)); } for (uint64_t e : {(uint64_t)M - 1, (uint64_t)M, ~(uint64_t)0, (uint64_t)1 << 63}) { auto p = powT(x, e); MC_CHECK((U)p.v == powm(A, e, M), "%s^%llu mod %s (%s) is %s", P(a), (unsigned long long)e, P(m), name<T>(), P(p.v)); T q = modulo_power<T>(a, e, m); MC_CHECK((U)q == powm(A, e, M), "modulo_power(%s, %llu, %s)", P(a), (unsigned long long)e, P(m)); } }
}
template<class T> static void bezout(T a, T b) { T x = 0, y = 0; T g = modulo_gcd_ex<T>(a, b, x, y); MC_CHECK((U)g == G((U)a, (U)b), "modulo_gcd_ex(%s, %s) is %s", P(a), P(b), P(g)); MC_CHECK(x >= 0 && y >= 0 && (a == 0 || b == 0 || ((U)x <= (U)b && (U)y <= (U)a)), "modulo_gcd_ex(%s, %s) has coefficients %s, %s", P(a), P(b), P(x), P(y)); if (b != 0 && a != 0) MC_CHECK((U)a * (U)x % (U)b == (U)g % (U)b && (U)b * (U)y % (U)a == (U)g % (U)a, "modulo_gcd_ex(%s, %s) has coefficients %s, %s (%s)", P(a), P(b), P(x), P(y), name<T>()); }
template<class T, int ID> struct dyn { typedef modulo<T, ID, modulo_storage::STATIC> type; };
template<class T> static void every(int top) {
    int m = 1 + mc::choose(top), a = mc::choose(m); mc::state(mc::H()(m)(a)); mc::trace("%d mod %d (%s)", a, m, name<T>()); typedef modulo<T, 0, modulo_storage::STATIC> ST; typedef modulo<T, 7, modulo_storage::STATIC> S7; MC_CHECK(sizeof(ST) == sizeof(T), "static storage"); ST::M() = (T)m; typedef moduloX<T> X;
    for (int b = 0; b < m; b++) { arith<T, X>((T)m, (T)a, (T)b, X((T)a, (T)m), X((T)b, (T)m)); arith<T, ST>((T)m, (T)a, (T)b, ST((T)a), ST((T)b)); bezout<T>((T)a, (T)m); if (a && b) bezout<T>((T)a, (T)b); }
    MC_CHECK(S7::M() == 7, "static moduli with different ids are separate"); X u((T)a, (T)m); X v(u); v += u; X z; z = u; MC_CHECK((U)z.v == (U)a && (U)z.M() == (U)m && (U)castOf(u, (T)(m - 1)).v == (U)(m - 1) && castOf(u, 0) == zeroOf(u), "copies and casts of %d mod %d", a, m); MC_CHECK(hasherT<X>()(u) == hasherT<X>()(z), "hash of equal values");
}
template<class T> static std::vector<T> moduli() { typedef std::numeric_limits<T> L; std::set<W> s; W mx = (W)L::max(); for (int i = 0; i < 8; i++) { s.insert(mx - i); s.insert(mx / 2 + i - 3); } for (int b : {8, 15, 16, 17, 31, 32, 33, 48, 62, 63}) for (int d = -2; d <= 2; d++) s.insert(((W)1 << b) + d); for (W p : {(W)1000000007, (W)998244353, (W)1000000006, (W)4294967291LL, (W)1000000007LL * 1000000009LL, (W)9223372036854775783LL, (W)720720, (W)1 << 20, (W)3486784401LL}) s.insert(p); std::vector<T> r; for (W x : s) if (x >= 1 && x <= mx) r.push_back((T)x); return r; }
template<class T> static std::vector<T> residues(T m) { std::set<U> s; U M = (U)m; auto add = [&](U x) { for (int d = -2; d <= 2; d++) { W y = (W)x + d; if (y >= 0 && (U)y < M) s.insert((U)y); } }; add(0); add(M - 1); add(M / 2); add(M / 3); add(M / 5 * 3); for (int b : {7, 8, 15, 16, 31, 32, 47, 62, 63}) if (((U)1 << b) < M) add((U)1 << b); for (U x : {(U)6, (U)15, (U)30, (U)1000000007, (U)65521, (U)1 << 20}) if (x < M) s.insert(x); for (U d : {(U)2, (U)3, (U)7}) if (M % d == 0) s.insert(M / d % M); return std::vector<T>(s.begin(), s.end()); }
template<class T> static void boundary() {
    static const std::vector<T> ms = moduli<T>(); T m = ms[mc::choose((int)ms.size())]; static T cached = 0; static std::vector<T> rs; if (cached != m) { rs = residues<T>(m); cached = m; } T a = rs[mc::choose((int)rs.size())]; mc::state(mc::H()((uint64_t)m)((uint64_t)a)); mc::trace("%s mod %s (%s)", P(a), P(m), name<T>()); typedef modulo<T, 0, modulo_storage::STATIC> ST; ST::M() = m; typedef moduloX<T> X;
    for (T b : rs) { arith<T, X>(m, a, b, X(a, m), X(b, m)); arith<T, ST>(m, a, b, ST(a), ST(b)); if (a && b) bezout<T>(a, b); } if (a) bezout<T>(a, m);
}
template<class T, uint64_t ID> static void constant() { typedef modulo<T, ID, modulo_storage::CONSTANT> C; T m = (T)ID; std::vector<T> rs; if (ID <= 60) for (uint64_t i = 0; i < ID; i++) rs.push_back((T)i); else rs = residues<T>(m); MC_CHECK(sizeof(C) == sizeof(T) && (U)C::M() == (U)ID, "constant storage"); mc::state(mc::H()(ID)(sizeof(T))); for (T a : rs) for (T b : rs) { arith<T, C>(m, a, b, C(a), C(b)); } }
template<class T> static void constants() { constant<T, 1>(); constant<T, 2>(); constant<T, 7>(); constant<T, 12>(); constant<T, 60>(); constant<T, 97>(); constant<T, 127>(); if (sizeof(T) >= 4) { constant<T, sizeof(T) >= 4 ? 1000000007 : 1>(); constant<T, sizeof(T) >= 4 ? 2147483647 : 1>(); constant<T, sizeof(T) >= 4 ? 65537 : 1>(); constant<T, sizeof(T) >= 4 ? 0x7ffffffe : 1>(); } if (sizeof(T) == 8) { constant<T, sizeof(T) == 8 ? 9223372036854775783ULL : 1>(); constant<T, sizeof(T) == 8 ? 4294967311ULL : 1>(); constant<T, sizeof(T) == 8 ? 0x7fffffffffffffffULL : 1>(); } }
// conversion of every source type into every target type
template<class F> static std::vector<F> sources() { typedef std::numeric_limits<F> L; std::set<W> s; if (sizeof(F) == 1) for (W x = (W)L::min(); x <= (W)L::max(); x++) s.insert(x); else { auto add = [&](W x) { for (int d = -3; d <= 3; d++) if (x + d >= (W)L::min() && x + d <= (W)L::max()) s.insert(x + d); }; add(0); add((W)L::max()); add((W)L::min()); for (int b = 5; b < 8 * (int)sizeof(F); b += 3) { add((W)1 << b); add(-((W)1 << b)); } for (W x = -50; x <= 300; x++) add(x); } return std::vector<F>(s.begin(), s.end()); }
template<class T, class F> static void convert1(T m) { static const std::vector<F> src = sources<F>(); typedef modulo<T, 0, modulo_storage::STATIC> ST; ST::M() = m; for (F v : src) { W r = (W)v % (W)m; if (r < 0) r += (W)m; mc::op(); MC_CHECK((W)moduloX<T>(v, m).v == r, "%s of %s converts to %s mod %s (%s), expected %s", P(v), name<F>(), P((moduloX<T>(v, m).v)), P(m), name<T>(), P(r)); MC_CHECK((W)ST(v).v == r, "%s of %s converts to %s mod %s (%s static)", P(v), name<F>(), P(ST(v).v), P(m), name<T>()); if (sizeof(T) == sizeof(F)) { moduloX<T> ref(0, m); MC_CHECK((W)castOf(ref, v).v == r, "cast of %s", P(v)); } W t = (W)(T)v; if (t == (W)v) MC_CHECK((W)modT<T>((T)v, m) == r, "modT(%s, %s)", P(v), P(m)); } }
template<class T> static void convert() { static std::vector<T> ms; if (ms.empty()) { ms = moduli<T>(); for (int i = 1; i < 60; i++) ms.push_back((T)i); } T m = ms[mc::choose((int)ms.size())]; mc::state((uint64_t)m); convert1<T, int8_t>(m); convert1<T, uint8_t>(m); convert1<T, int16_t>(m); convert1<T, uint16_t>(m); convert1<T, int32_t>(m); convert1<T, uint32_t>(m); convert1<T, int64_t>(m); convert1<T, uint64_t>(m); convert1<T, long long>(m); convert1<T, unsigned long long>(m); }
template<class T> static void reg(const char* n, int top) { std::string s = n; mc::add(s + "_every", [top] { every<T>(top); }, sizeof(T) == 1 ? 8 : 4); mc::add(s + "_boundary", boundary<T>, 4); mc::add(s + "_constant", constants<T>, 1); mc::add(s + "_convert", convert<T>, 2); }
MC_SETUP(all) { int t = mc::tier(40, 100); reg<int8_t>("int8", 127); reg<uint8_t>("uint8", 255); reg<int16_t>("int16", t); reg<uint16_t>("uint16", t); reg<int32_t>("int32", t); reg<uint32_t>("uint32", t); reg<int64_t>("int64", t); reg<uint64_t>("uint64", t); reg<long long>("longlong", t); reg<unsigned long long>("ulonglong", t); }
