// C45 nimbers and GF(2): products against the mex definition, field laws, inverses, roots and powers for every value in the bounds.
// MC_BOUNDS: every pair of nimbers below 256 (8-bit types, signed and unsigned) against the recursive product, itself checked against the mex definition below 64 (thorough 256); every triple below 32 (thorough 64) for the laws; every 16-bit nimber for inverse, square root and lift; every pair of about 250 boundary values (powers of two and of Fermat numbers and their neighbours) of the 16-, 32- and 64-bit types; every pair (triple) of GF(2) words of 4 bits in words of 8, 16, 32 and 64 bits
// MC_ASSUME: the inverse of zero is not asked for
#include "mc.h"
#include <stdint.h>
#include <utility>
#include <vector>
#include <type_traits>
#include "altruct/structure/math/nimber.h"
#include "altruct/structure/math/galois_field_2.h"
namespace am = altruct::math; typedef uint64_t u64;
// the definition: a*b = mex of a'b + ab' + a'b' over all a' < a, b' < b
static int MEX[256][256];
static void mex_to(int n) { static int done = 0; for (int s = done; s < n; s++) for (int t = 0; t <= s; t++) for (int o = 0; o < 2; o++) { int a = o ? s : t, b = o ? t : s; static int mark[512], stamp; stamp++; for (int x = 0; x < a; x++) for (int y = 0; y < b; y++) mark[MEX[x][b] ^ MEX[a][y] ^ MEX[x][y]] = stamp; int m = 0; while (mark[m] == stamp) m++; MEX[a][b] = m; } if (n > done) done = n; }
// recursion over Fermat powers F = 2^2^k with F*F = F + F/2
static u64 ref(u64 a, u64 b, int k = 6) { if (a < 2 || b < 2) return a * b; k--; int h = 1 << k; u64 m = ((u64)1 << h) - 1, a1 = a >> h, a0 = a & m, b1 = b >> h, b0 = b & m; if (!a1 && !b1) return ref(a0, b0, k); u64 hh = ref(a1, b1, k); return ((hh ^ ref(a1, b0, k) ^ ref(a0, b1, k)) << h) ^ ref(a0, b0, k) ^ (hh ? ref(hh, (u64)1 << (h - 1), k) : 0); }
template<class T> struct Nim {
    typedef T N; typedef decltype(N().v) U;
    static void pair(u64 a, u64 b) {
        mc::op(); const N x((U)a), y((U)b); const u64 w = ref(a, b);
#define CK(c) MC_CHECK(c, "%s for %llu and %llu in %d bits", #c, (unsigned long long)a, (unsigned long long)b, (int)sizeof(U) * 8)
        CK((u64)(x * y).v == w); CK((u64)(y * x).v == w); CK((u64)N::mul((U)a, (U)b) == w); CK((u64)N::mul2(x, y).v == w); CK((u64)(x + y).v == (a ^ b)); CK((u64)(x - y).v == (a ^ b)); CK((u64)(-x).v == a); N t = x; N& r = (t *= y); CK(&r == &t && (u64)t.v == w); t = x; t += y; CK((u64)t.v == (a ^ b)); t = x; t -= y; CK((u64)t.v == (a ^ b));
        CK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b)); CK((x % y).v == 0); t = x; t %= y; CK(t.v == 0); if (b) { N q = x / y; CK((u64)(q * y).v == a); CK(ref((u64)q.v, b) == a); t = x; t /= y; CK(t == q); CK((N((U)w) / y) == x); }
    }
    static void one(u64 a) {
        mc::op(); const N x((U)a); const u64 b = a; if (a) { N i = x.inverse(); CK(ref((u64)i.v, a) == 1); CK(i.inverse() == x); CK(x / x == N(1)); N t = x; t /= t; CK(t == N(1)); } N s = x.sqrt(); CK(ref((u64)s.v, (u64)s.v) == a); CK((x * x).sqrt() == x); N t = x; t *= t; CK((u64)t.v == ref(a, a)); t = x; t += t; CK(t.v == 0); CK((u64)am::identityOf(N(x)).v == 1 && am::zeroOf(N(x)).v == 0); int l = x.level(), w = 0; for (int k = 0; k < 6; k++) if (a >> (1 << k)) w = k + 1; CK(l == (a < 2 ? 0 : w));
        for (int k = 0; k < 6 && (8 * sizeof(U)) >> k >= 1; k++) { if ((2u << k) <= 8 * sizeof(U)) { N h = x.high(k), o = x.low(k); CK(((u64)h.v << (1 << k) ^ (u64)o.v) == a && (u64)o.v >> (1 << k) == 0); CK(N::join(h, o, k) == x); } if ((1u << k) <= 8 * sizeof(U) && ((1 << k) >= 64 || a >> (1 << k) == 0)) CK((u64)N::lift(x, k).v == ref(a, (u64)1 << ((1 << k) - 1))); }
    }
    static void power(u64 a) { const N x((U)a); const u64 b = a; N p(1); u64 q = 1; for (int e = 0; e < 20; e++) { CK(am::powT(x, e) == p && (u64)p.v == q); p *= x; q = ref(q, a); } N f = x; for (unsigned i = 0; i < 8 * sizeof(U); i++) f *= f; CK(f == x); /* x^(2^bits) = x */ if (a) CK(am::powT(x, ((u64)1 << (8 * sizeof(U) - 1) << 1) - 2) == x.inverse()); }
};
static std::vector<u64> boundary(int bits) { std::vector<u64> r; auto add = [&](u64 v) { if (bits < 64) v &= ((u64)1 << bits) - 1; for (u64 x : r) if (x == v) return; r.push_back(v); }; for (u64 i = 0; i < 8; i++) add(i); for (int k = 0; k < bits; k++) for (int d = -1; d <= 1; d++) add(((u64)1 << k) + d); for (int k = 1; k < bits; k *= 2) { u64 f = (u64)1 << k; for (u64 m : {f | f >> 1, f * 2 - 1, f | 1, f ^ (f - 1) ^ (f >> 1), f * 3, ~f, ~(f - 1), ~(f >> 1)}) add(m); } for (u64 m : {0xAAAAAAAAAAAAAAAAull, 0x5555555555555555ull, 0xCCCCCCCCCCCCCCCCull, 0xF0F0F0F0F0F0F0F0ull, 0xFF00FF00FF00FF00ull, 0xFFFF0000FFFF0000ull, 0x0123456789ABCDEFull, 0xFEDCBA9876543210ull, 0x8000000000000001ull}) add(m); return r; }
static void definition() { int n = mc::tier(64, 256); int a = mc::choose(n); mc::state(mc::hash(a)); mex_to(n); for (int b = 0; b < n; b++) { mc::op(); MC_CHECK((int)ref(a, b) == MEX[a][b], "the recursive reference for %d * %d", a, b); MC_CHECK((int)am::nimber<int>::mul(a, b) == MEX[a][b], "%d * %d is %d, the mex definition gives %d", a, b, (int)am::nimber<int>::mul(a, b), MEX[a][b]); MC_CHECK((int)(am::nimber<uint8_t>(a) * am::nimber<uint8_t>(b)).v == MEX[a][b], "%d * %d in 8 bits", a, b); } }
template<class T> void small() { int a = mc::choose(256); mc::state(mc::hash(a)); mc::trace("every pair with %d", a); for (int b = 0; b < 256; b++) Nim<T>::pair(a, b); Nim<T>::one(a); Nim<T>::power(a); }
static void small8() { small<am::nimber<uint8_t>>(); } static void small8s() { small<am::nimber<int8_t>>(); } static void small_int() { small<am::nimber<int>>(); }
static void small_narrow() { typedef am::nimber<int, 8> N; int a = mc::choose(256); mc::state(mc::hash(a)); for (int b = 0; b < 256; b++) { mc::op(); MC_CHECK((u64)(N(a) * N(b)).v == ref(a, b) && (u64)N::mul2(N(a), N(b)).v == ref(a, b), "%d * %d in nimber<int, 8>", a, b); if (b) MC_CHECK(N(a) / N(b) * N(b) == N(a), "%d / %d in nimber<int, 8>", a, b); } }
static void laws() { typedef am::nimber<uint32_t> N; int n = mc::tier(32, 64); int a = mc::choose(n); mc::state(mc::hash(a)); for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) { mc::op(); N x(a), y(b), z(c); MC_CHECK((x * y) * z == x * (y * z), "associativity of %d %d %d", a, b, c); MC_CHECK(x * (y + z) == x * y + x * z && (y + z) * x == y * x + z * x, "distributivity of %d %d %d", a, b, c); MC_CHECK((x + y) + z == x + (y + z), "associativity of the sum"); MC_CHECK(!a || y == z || x * y != x * z, "cancellation of %d %d %d", a, b, c); } }
static void all16() { int hi = mc::choose(256); mc::state(mc::hash(hi)); for (int lo = 0; lo < 256; lo++) { u64 a = hi * 256 + lo; Nim<am::nimber<uint16_t>>::one(a); if (lo % 16 == 0) { Nim<am::nimber<uint64_t>>::one(a); Nim<am::nimber<int16_t>>::one(a); } } }
template<class T> void bnd() { static const auto B = boundary(sizeof(T().v) * 8); u64 a = B[mc::choose((int)B.size())]; mc::state(mc::hash(a)); mc::trace("every pair with %llu", (unsigned long long)a); Nim<T>::one(a); Nim<T>::power(a); for (u64 b : B) Nim<T>::pair(a, b); }
static void bnd16() { bnd<am::nimber<int16_t>>(); } static void bnd32() { bnd<am::nimber<int>>(); } static void bnd64() { bnd<am::nimber<uint64_t>>(); } static void bnd64s() { bnd<am::nimber<int64_t>>(); }
// GF(2): every bit on its own
template<class I> void gf2() { typedef am::galois_field_2<I> G; int sh = sizeof(I) * 8 - 4; int a4 = mc::choose(16), b4 = mc::choose(16), hi = mc::choose(2); mc::state(mc::hash(a4, b4, hi, (int)sizeof(I))); auto word = [&](int v) { return (I)(hi ? (u64)v << sh | (~(u64)0 >> (64 - sh)) * (v & 1) : (u64)v); }; I a = word(a4), b = word(b4); G x(a), y(b); const I ones = (I)~(I)0; mc::op();
    auto bit = [](I v, unsigned i) { return (int)((u64)v >> i & 1); };
    G s = x + y, d = x - y, p = x * y, n = -x, q = x / y, e = am::identityOf(x), z = am::zeroOf(x); for (unsigned i = 0; i < 8 * sizeof(I); i++) { int u = bit(a, i), v = bit(b, i); MC_CHECK(bit(s.v, i) == (u + v) % 2 && bit(d.v, i) == ((u - v) & 1) && bit(p.v, i) == u * v && (bit(n.v, i) + u) % 2 == 0 && bit(e.v, i) == 1 && bit(z.v, i) == 0, "bit %u of %llx and %llx", i, (unsigned long long)a, (unsigned long long)b); if (v) MC_CHECK(bit(q.v, i) == u, "bit %u of the quotient", i); }
    G t = x; MC_CHECK(&(t += y) == &t && t == s, "+="); t = x; MC_CHECK((t -= y) == d, "-="); t = x; MC_CHECK((t *= y) == p, "*="); t = x; MC_CHECK((t /= y) == q, "/="); t = x; t += t; MC_CHECK(t.v == 0, "+= itself"); t = x; t -= t; MC_CHECK(t.v == 0, "-= itself"); t = x; t *= t; MC_CHECK(t == x, "*= itself"); t = x; t /= t; MC_CHECK(t.v == ones, "/= itself");
    MC_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "comparison"); for (int c = 0; c < 16; c++) { G w(word(c)); MC_CHECK((x + y) + w == x + (y + w) && (x * y) * w == x * (y * w) && x * (y + w) == x * y + x * w, "laws"); } MC_CHECK(am::powT(x, 3) == x && am::powT(x, 0) == e && x * e == x && x + z == x, "powers and units"); }
static void gf2_8() { gf2<uint8_t>(); } static void gf2_16() { gf2<uint16_t>(); } static void gf2_32() { gf2<uint32_t>(); } static void gf2_64() { gf2<uint64_t>(); } static void gf2_int() { gf2<int>(); }
MC_SETUP(setup) { mc::add("definition", definition, mc::tier(1, 1)); mc::add("small8", small8, 2); mc::add("small8s", small8s, 2); mc::add("small_int", small_int, 2); mc::add("small_narrow", small_narrow, 1); mc::add("laws", laws, 2); mc::add("all16", all16, 4); mc::add("bnd16", bnd16, 2); mc::add("bnd32", bnd32, 4); mc::add("bnd64", bnd64, 8); mc::add("bnd64s", bnd64s, 8); mc::add("gf2_8", gf2_8); mc::add("gf2_16", gf2_16); mc::add("gf2_32", gf2_32); mc::add("gf2_64", gf2_64); mc::add("gf2_int", gf2_int); }
