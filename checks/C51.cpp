// C51 big-integer helpers: every pair or triple over a set of boundary values of the machine words, compared with 128-bit or definition-based arithmetic.
// MC_BOUNDS: 64-bit values around 0, powers of two and decimal powers up to the ends of the range (46 values; thorough 120), every pair and a grid of triples; roots of every number up to 3000 (thorough 20000) and around powers up to 2^200; a modular type over big integers for every residue pair modulo several moduli, small and beyond 64 bits
// MC_ASSUME: the installed GMP library computes correctly; conversions to machine words are modulo the word size as in the existing casts
// MC_LD: -lgmp
// MC_FLAGS: -O1
#include "mc.h"
#include <utility>
#include <stdint.h>
#include <limits.h>
#include <sstream>
#include <string>
#include <vector>
#include "altruct/algorithm/math/gmp_helpers.h"
namespace am = altruct::math; typedef int64_t i64; typedef unsigned long long ull; typedef __int128 L;
static std::vector<i64> V; static std::vector<i64> SM;
MC_SETUP(setup) { if (V.size()) return; for (i64 x : {0LL, 1LL, 2LL, 3LL, 7LL, 10LL, 97LL, 1000000007LL}) { V.push_back(x); if (x) V.push_back(-x); } for (int b = mc::thorough() ? 4 : 15; b <= 62; b += mc::thorough() ? 1 : (b < 31 ? 8 : b == 31 ? 1 : b == 32 ? 30 : 1)) for (int d = -1; d <= 1; d++) { i64 x = (1LL << b) + d; V.push_back(x); if (d != 0 || b > 30) V.push_back(-x); } V.push_back(LLONG_MAX); V.push_back(LLONG_MIN); V.push_back(LLONG_MIN + 1); V.push_back(LLONG_MAX - 24); }
// an mpz from its decimal digits, and its decimal digits, straight from GMP
static std::string dec(L x) { if (x == 0) return "0"; bool n = x < 0; unsigned __int128 u = n ? -(unsigned __int128)x : x; std::string s; while (u) s.insert(s.begin(), char('0' + (int)(u % 10))), u /= 10; return n ? "-" + s : s; }
static mpz big(L x) { return mpz(dec(x)); } static bool is(const mpz& z, L w) { return z.get_str() == dec(w); }
static i64 val(int i) { return V[i]; }
static L mod(L a, L m) { a %= m; return a < 0 ? a + m : a; }
// a product modulo m without leaving 128 bits
static L mulm(L a, L b, L m) { L r = 0; bool n = (a < 0) != (b < 0); if (a < 0) a = -a; if (b < 0) b = -b; a %= m; while (b) { if (b & 1) r = (r + a) % m; a = (a + a) % m; b >>= 1; } return n ? -r : r; }
static L powm(L a, ull e, L m) { L r = 1 % m; a = mod(a, m); while (e) { if (e & 1) r = mulm(r, a, m); a = mulm(a, a, m); e >>= 1; } return r; }
MC_SCENARIO(casts, 1) { i64 a = val(mc::choose((int)V.size())); mc::state(mc::hash(a)); mc::op(); mpz z = big(a); MC_CHECK(is(am::castOf<mpz>((long long)a), a), "cast of %lld to a big integer", (long long)a); MC_CHECK(is(am::castOf<mpz>((ull)a), (L)(ull)a), "cast of %llu to a big integer", (ull)a); MC_CHECK(is(int64_to_mpz(a), a), "int64_to_mpz(%lld)", (long long)a); MC_CHECK(mpz_to_int64(z) == a, "mpz_to_int64(%lld)", (long long)a);
    MC_CHECK((am::castOf<long long>(z) == a) && am::castOf<long>(z) == a && am::castOf<ull>(z) == (ull)a && am::castOf<unsigned long>(z) == (unsigned long)a && am::castOf<int>(z) == (int)a && am::castOf<unsigned>(z) == (unsigned)a, "casts of the big integer %lld to machine words", (long long)a); L u = (L)(ull)a; mpz y = big(u); MC_CHECK(am::castOf<ull>(y) == (ull)a && am::castOf<long long>(y) == a && am::castOf<unsigned long>(y) == (unsigned long)a, "casts of the big integer %llu", (ull)a);
    for (int s : {64, 65, 100, 128, 190}) for (int sg = -1; sg <= 1; sg += 2) { mpz w = z + sg * (mpz(1) << s); MC_CHECK(am::castOf<ull>(w) == (ull)a && am::castOf<unsigned long>(w) == (unsigned long)a && am::castOf<unsigned>(w) == (unsigned)a && am::castOf<int>(w) == (int)a && am::castOf<long>(w) == a && am::castOf<long long>(w) == a && mpz_to_int64(w) == a, "casts of %c2^%d + %lld", sg < 0 ? '-' : '+', s, (long long)a); }
    for (int s : {64, 65, 100}) { mpz w = z; if (a >= 0) { w += (mpz(1) << s); MC_CHECK(am::castOf<ull>(w) == (ull)a && am::castOf<unsigned>(w) == (unsigned)a && am::castOf<long long>(w) == a, "casts of 2^%d + %lld", s, (long long)a); } } mpf f(z, 128); MC_CHECK(is(am::castOf<mpz>(f), a), "cast of the big float %lld", (long long)a); f = mpf(z, 256) + mpf(0.25, 256); if (a >= 0) MC_CHECK(is(am::castOf<mpz>(f), a), "cast of the big float %lld.25", (long long)a);
    MC_CHECK(is(z_abs(z), a < 0 ? -(L)a : (L)a), "z_abs(%lld)", (long long)a); MC_CHECK(is(z_sq(z), (L)a * a), "z_sq(%lld)", (long long)a); if (a > -(1LL << 40) && a < (1LL << 40)) MC_CHECK(is(z_cb(z), (L)a * a * a), "z_cb(%lld)", (long long)a); for (int i = 0; i < 70; i++) MC_CHECK(z_testbit(z, i) == (int)((L)a >> i & 1), "bit %d of %lld", i, (long long)a); }
MC_SCENARIO(division, 2) { i64 a = val(mc::choose((int)V.size())), b = val(mc::choose((int)V.size())); if (!b) mc::cut(); mc::state(mc::hash(a, b)); mc::op(); mpz x = big(a), y = big(b); L q = (L)a / b, r = (L)a % b; L f = q - (r && ((r < 0) != (b < 0))), c = q + (r && ((r < 0) == (b < 0))); MC_CHECK(is(z_div_floor(x, y), f), "floor(%lld / %lld)", (long long)a, (long long)b); MC_CHECK(is(z_div_ceil(x, y), c), "ceil(%lld / %lld)", (long long)a, (long long)b); L g = a < 0 ? -(L)a : a, h = b < 0 ? -(L)b : b; while (h) { L t = g % h; g = h; h = t; } MC_CHECK(is(z_gcd(x, y), g), "gcd(%lld, %lld)", (long long)a, (long long)b); mpz l = z_lcm(x, y); MC_CHECK(is(z_abs(l), ((L)a < 0 ? -(L)a : (L)a) / g * ((L)b < 0 ? -(L)b : (L)b)), "lcm(%lld, %lld)", (long long)a, (long long)b); mpz m1 = x % b, m2 = a % y; MC_CHECK(is(m1, r) && is(m2, r), "%lld %% %lld", (long long)a, (long long)b); }
MC_SCENARIO(modular, 8) { i64 a = val(mc::choose((int)V.size())), b = val(mc::choose((int)V.size())), m = val(mc::choose((int)V.size())); if (m <= 0) mc::cut(); mc::state(mc::hash(a, b, m)); mc::op(); L w = mulm(a, b, m); L g = z_mulmod(a, b, m); MC_CHECK(g == w, "%lld * %lld mod %lld = %lld, wanted %lld", (long long)a, (long long)b, (long long)m, (long long)g, (long long)w); MC_CHECK(is(z_mulmod(big(a), big(b), big(m)), w), "big %lld * %lld mod %lld", (long long)a, (long long)b, (long long)m); if (b >= 0) { L p = powm(a, (ull)b, m); i64 q = z_powmod(a, b, m); MC_CHECK((L)q == p, "%lld ^ %lld mod %lld = %lld, wanted %lld", (long long)a, (long long)b, (long long)m, (long long)q, (long long)p); MC_CHECK(is(z_powmod(big(a), big(b), big(m)), p), "big %lld ^ %lld mod %lld", (long long)a, (long long)b, (long long)m); }
    if (b == 1) { L x = mod(a, m), y = m; while (y) { L t = x % y; x = y; y = t; } if (x == 1) MC_CHECK(is(z_mulmod(z_inverse(big(a), big(m)), big(mod(a, m)), big(m)), 1 % m), "inverse of %lld mod %lld", (long long)a, (long long)m); } }
MC_SCENARIO(roots, 2) { int k = mc::choose(2), i = mc::choose(k ? 200 : mc::tier(3000, 20000)), d = k ? mc::choose(3) - 1 : 0; mc::state(mc::hash(k, i, d)); mc::op(); mpz x = k ? (mpz(1) << i) + d : mpz(i); if (k && (i & 1) == 0 && i < 190) x *= 49; else if (k && d == 1) x *= x; mpz s = z_sqrt(x), c = z_sqrtc(x); MC_CHECK(s >= 0 && s * s <= x && (s + 1) * (s + 1) > x, "z_sqrt of %s is %s", x.get_str().c_str(), s.get_str().c_str()); MC_CHECK(c * c >= x && (c == 0 || (c - 1) * (c - 1) < x), "z_sqrtc of %s is %s", x.get_str().c_str(), c.get_str().c_str()); MC_CHECK(am::sqrtT(x) == s, "sqrtT of %s", x.get_str().c_str());
    for (int n = 1; n <= 7; n++) { mpz r = z_root(x, n), p = 1, q = 1; for (int j = 0; j < n; j++) p *= r, q *= r + 1; MC_CHECK(p <= x && q > x, "root %d of %s is %s", n, x.get_str().c_str(), r.get_str().c_str()); MC_CHECK(z_pow(r, n) == p, "z_pow"); } }
MC_SCENARIO(primes, 2) { int n = mc::choose(mc::tier(2000, 20000)); mc::state(mc::hash(n)); mc::op(); auto pr = [](i64 x) { if (x < 2) return false; for (i64 d = 2; d * d <= x; d++) if (x % d == 0) return false; return true; }; MC_CHECK((is_prime((i64)n, 25) != 0) == pr(n), "is_prime(%d)", n); MC_CHECK((is_prime(mpz(n), 25) != 0) == pr(n), "is_prime of the big %d", n); i64 p = n + 1; while (!pr(p)) p++; MC_CHECK(next_prime(n) == p, "next_prime(%d)", n); if (n < 60) { i64 base = (i64)1000000007 * 3 + n; i64 q = base + 1; while (!pr(q)) q++; MC_CHECK(next_prime(base) == q, "next_prime(%lld)", (long long)base); MC_CHECK((is_prime(base, 25) != 0) == pr(base), "is_prime(%lld)", (long long)base); } }
// the modular type over big integers is the ring of residues
MC_SCENARIO(modular_type, 8) { typedef am::moduloX<mpz> X; static const char* ms[] = {"1", "2", "7", "12", "97", "18446744073709551629", "1000000000000000000000000000057"}; int k = mc::choose(7); mpz m(ms[k]); int c = k < 5 ? (int)m.get_si() : 40; if (k < 5 && c > mc::tier(40, 97)) c = mc::tier(40, 97); int i = mc::choose(2 * c) - c, j = mc::choose(c); mc::state(mc::hash(k, i, j)); mc::op(); auto wide = [&](int t) { mpz r = t; if (k >= 5) r = r * m / 41 + t * 12345; return r; }; mpz a = wide(i), b = wide(j); auto nz = [&](const mpz& z) { mpz r; mpz_fdiv_r(r.get_mpz_t(), z.get_mpz_t(), m.get_mpz_t()); return r; };
    X x(a, m), y(b, m); auto eq = [&](const X& g, const mpz& w, const char* what) { MC_CHECK(g.v == nz(w) && g.M() == m, "%s of %s and %s modulo %s is %s", what, a.get_str().c_str(), b.get_str().c_str(), ms[k], g.v.get_str().c_str()); }; eq(x, a, "value"); eq(x + y, a + b, "sum"); eq(x - y, a - b, "difference"); eq(x * y, a * b, "product"); eq(-x, -a, "negation"); eq(am::sqT(x), a * a, "square"); mpz g; mpz_gcd(g.get_mpz_t(), nz(b).get_mpz_t(), m.get_mpz_t()); if (g == 1) { X d = x / y; eq(d * y, a, "quotient times divisor"); eq(y.inv() * y, 1, "inverse times value"); } for (int e = 0; e < 12; e++) { mpz p = 1; for (int t = 0; t < e; t++) p = nz(p * a); eq(am::powT(x, e), p, "power"); eq(am::modulo_power<mpz>(nz(a), mpz(e), m) == nz(p) ? X(p, m) : X(p + 1, m), p, "modulo_power"); } }
MC_SCENARIO(printing, 1) { int i = mc::choose((int)V.size()), b = mc::choose(5) + 1; i64 a = V[i]; mc::state(mc::hash(a, b)); mc::op(); { std::ostringstream o; ::operator<<(o, big(a)); MC_CHECK(o.str() == dec(a), "%lld printed as %s", (long long)a, o.str().c_str()); } { std::ostringstream o; mpq q(big(a), big(b)); q.canonicalize(); ::operator<<(o, q); L g = a < 0 ? -(L)a : a, h = b; while (h) { L t = g % h; g = h; h = t; } MC_CHECK(o.str() == dec(a / g) + (b / g == 1 ? "" : "/" + dec(b / g)), "%lld/%d printed as %s", (long long)a, b, o.str().c_str()); }
    std::ostringstream o; mpf f(big(a), 128); ::operator<<(o, f); std::string s = o.str(), w = dec(a < 0 ? -(L)a : a); int len = (int)w.size(); while (w.size() && w.back() == '0') w.pop_back(); std::string want = a == 0 ? "0.e0" : std::string(a < 0 ? "-" : "") + "0." + w + "e" + std::to_string(len); MC_CHECK(s == want, "the big float %lld printed as %s, wanted %s", (long long)a, s.c_str(), want.c_str()); }
MC_SCENARIO(floats, 1) { int i = mc::choose(41) - 20, h = mc::choose(4); double v = i + h * 0.25; mc::state(mc::hash(i, h)); mc::op(); mpf f(v, 128); MC_CHECK(f_floor(f) == mpf((double)(h >= 0 ? i : i), 128), "f_floor(%g)", v); MC_CHECK(f_ceil(f) == mpf((double)(h ? i + 1 : i), 128), "f_ceil(%g)", v); MC_CHECK(f_abs(f) == mpf(v < 0 ? -v : v, 128), "f_abs(%g)", v); MC_CHECK(f_int(f) == (int)v, "f_int(%g)", v); for (int e = 0; e < 6; e++) { double p = 1; for (int t = 0; t < e; t++) p *= v; MC_CHECK(f_pow(f, e) == mpf(p, 128), "f_pow(%g, %d)", v, e); } if (v >= 0) { mpf s = f_sqrt(mpf(v * v, 64)); MC_CHECK(s == mpf(v, 64), "f_sqrt(%g)", v * v); if (!h) MC_CHECK(f_sqrt(i * i) == mpf((double)i, 64), "f_sqrt(%d)", i * i); } mpf t; f_set(t, v, 200); MC_CHECK(t == f && t.get_prec() >= 200, "f_set(%g)", v); mpf u; f_set(u, f, 0); MC_CHECK(u == f && u.get_prec() >= 128, "f_set of a float keeps its precision"); f_set(u, f, 300); MC_CHECK(u == f && u.get_prec() >= 300, "f_set of a float to 300 bits"); }
