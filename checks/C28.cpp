// C28 random generators: every sequence against the published algorithm, continuation from every saved position, every range of 8-bit values with every generator output.
// MC_BOUNDS: Mersenne twister against std::mt19937 and init_by_array for 64 (quick) / 512 (thorough) seeds and arrays of length 1..8, 624 and 700, 1300 outputs each; save/load, stream and copy continuation from every position 0..1300; xorshift 64*/1024* against the published recurrences for 2000 seeds; range reduction for every 8-bit (and every 16-bit width against every output on a grid) range with every raw output, signed and unsigned, narrower and wider than the output; Mersenne randInt(n) for every n up to 300 with every pattern of the used bits; real outputs at the extremes and on a 16-bit grid of raw outputs
// MC_ASSUME: xorshift states are nonzero, as documented; after 20 rejected outputs uniform_next may return a biased value inside the range, as documented
#include "mc.h"
#include <stdio.h>
#include <limits.h>
#include <stdint.h>
#include <math.h>
#include <random>
#include <memory>
#include <sstream>
#include "altruct/algorithm/random/random.h"
#include "altruct/algorithm/random/xorshift.h"
#include "altruct/algorithm/random/mersenne_twister.h"
namespace ar = altruct::random; typedef ar::mtrand MT;
static uint32_t seed_value(int i) { static const uint32_t s[] = {0, 1, 2, 3, 5489, 4357, 19650218, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu, 42}; return i < 12 ? s[i] : (uint32_t)i * 2654435761u; }
// reference generator (Matsumoto & Nishimura 2002)
struct ref_mt { uint32_t s[624]; int i; void init(uint32_t x) { s[0] = x; for (int j = 1; j < 624; j++) s[j] = 1812433253u * (s[j - 1] ^ s[j - 1] >> 30) + j; i = 624; }
    void init_array(const uint32_t* k, int n) { init(19650218u); int i2 = 1, j = 0; for (int c = std::max(624, n); c; c--) { s[i2] = (s[i2] ^ (s[i2 - 1] ^ s[i2 - 1] >> 30) * 1664525u) + k[j] + j; i2++; j++; if (i2 >= 624) { s[0] = s[623]; i2 = 1; } if (j >= n) j = 0; } for (int c = 623; c; c--) { s[i2] = (s[i2] ^ (s[i2 - 1] ^ s[i2 - 1] >> 30) * 1566083941u) - i2; i2++; if (i2 >= 624) { s[0] = s[623]; i2 = 1; } } s[0] = 0x80000000u; i = 624; }
    uint32_t next() { if (i == 624) { for (int k = 0; k < 624; k++) { uint32_t y = (s[k] & 0x80000000u) | (s[(k + 1) % 624] & 0x7fffffffu); s[k] = s[(k + 397) % 624] ^ y >> 1 ^ (y & 1 ? 0x9908b0dfu : 0); } i = 0; } uint32_t y = s[i++]; y ^= y >> 11; y ^= y << 7 & 0x9d2c5680u; y ^= y << 15 & 0xefc60000u; return y ^ y >> 18; } };
static void mt_seeds(int n) {
    int i = mc::choose(n), form = mc::choose(3); uint32_t s = seed_value(i); mc::op(); mc::state(mc::H()(i)(form)); std::unique_ptr<MT> g; if (form == 0) g.reset(new MT(s)); else if (form == 1) { g.reset(new MT(7u)); for (int k = 0; k < 11; k++) g->randInt(); g->seed(s); } else { g.reset(new MT(s)); std::vector<uint32_t> sv(MT::SAVE); g->save(sv.data()); MT h(5u); h.load(sv.data()); std::mt19937 r(s); for (int k = 0; k < 700; k++) { uint32_t a = h.randInt(), b = r(); MC_CHECK(a == b, "loaded generator with seed %u: output %d is %u, expected %u", s, k, a, b); } }
    std::mt19937 r(s); ref_mt q; q.init(s); for (int k = 0; k < 1300; k++) { uint32_t a = g->randInt(), b = r(); MC_CHECK(b == q.next(), "the two references disagree"); MC_CHECK(a == b, "mersenne twister with seed %u: output %d is %u, expected %u", s, k, a, b); }
}
static void mt_arrays(int n) {
    int len = mc::choose(11), i = mc::choose(n); static const int L[] = {1, 2, 3, 4, 5, 6, 7, 8, 623, 624, 700}; std::vector<uint32_t> k(L[len]); for (size_t j = 0; j < k.size(); j++) k[j] = i == 0 ? 0 : i == 1 ? 0xffffffffu : seed_value((int)(i * 37 + j * 11)); if (len == 3 && i == 2) k = {0x123, 0x234, 0x345, 0x456}; mc::op(); mc::state(mc::H()(len)(i)); MT g(k.data(), (uint32_t)k.size()); MT h(1u); h.seed(k.data(), (uint32_t)k.size()); ref_mt r; r.init_array(k.data(), (int)k.size()); for (int j = 0; j < 1300; j++) { uint32_t a = g.randInt(), b = r.next(); MC_CHECK(a == b && h.randInt() == b, "array seed of length %d: output %d is %u, expected %u", (int)k.size(), j, a, b); }
}
static void mt_continue() { // saved, streamed or copied at every position
    int pos = mc::choose(1301), how = mc::choose(5); mc::op(); mc::state(mc::H()(pos)(how)); std::unique_ptr<MT> g(new MT(12345u)); std::vector<uint32_t> w; { std::mt19937 r(12345u); for (int i = 0; i < pos + 1300; i++) w.push_back(r()); } for (int i = 0; i < pos; i++) g->randInt(); std::unique_ptr<MT> h(new MT(99u));
    for (int i = 0; i < pos % 7; i++) h->randInt(); std::vector<uint32_t> sv(MT::SAVE, 1); if (how == 0) { g->save(sv.data()); h->load(sv.data()); } else if (how == 1) { std::stringstream ss; ss << *g; ss >> *h; } else if (how == 2) { h.reset(new MT(*g)); } else if (how == 3) { *h = *g; } else { MT t(*g); *h = t; t.randInt(); }
    if (how == 4) g.reset(); // the copy must not depend on the original
    if (g) for (int i = 0; i < 3; i++) MC_CHECK(g->randInt() == w[pos + i], "the original continues wrong after being saved at %d", pos); const char* hn[] = {"load", "stream", "copy", "assignment", "assignment, original gone"}; for (int i = 0; i < 1300; i++) { uint32_t a = h->randInt(); MC_CHECK(a == w[pos + i], "%s at position %d: output %d is %u, expected %u", hn[how], pos, i, a, w[pos + i]); }
    if (g) for (int i = 3; i < 1300; i++) MC_CHECK(g->randInt() == w[pos + i], "the original is disturbed by its copy (%s at %d)", hn[how], pos);
}
// a generator whose next raw outputs are the given ones
static uint32_t untemper(uint32_t y) { y ^= y >> 18; y ^= y << 15 & 0xefc60000u; uint32_t x = y; for (int i = 0; i < 5; i++) x = y ^ (x << 7 & 0x9d2c5680u); y = x; for (int i = 0; i < 3; i++) x = y ^ x >> 11; return x; }
static MT& primed(const std::vector<uint32_t>& raw) { static MT g(1u); std::vector<uint32_t> sv(MT::SAVE, 0); for (size_t i = 0; i < raw.size(); i++) sv[i] = untemper(raw[i]); sv[MT::N] = MT::N; g.load(sv.data()); return g; }
static void mt_ranges() {
    int i = mc::choose(330); uint32_t n = i <= 300 ? i : i < 315 ? (1u << (i - 301 + 9)) : i < 328 ? (1u << (i - 315 + 9)) - 1 : i == 328 ? 0xffffffffu : 0x80000000u; mc::op(); mc::state(i); uint32_t used = 0; while (used < n) used = used * 2 + 1;
    std::vector<int> hit(n <= 300 ? n + 1 : 0); for (uint32_t low = 0; low <= (n <= 300 ? used : 300); low++) for (uint32_t high : {0u, 0xffffffffu, 0xa5a5a5a5u}) { uint32_t raw = (high & ~used) | (n <= 300 ? low : (used - low) & used); uint32_t m = raw & used; MT& g = primed({raw, raw, 0, 0x12345678u}); uint32_t r = g.randInt(n); if (m <= n) MC_CHECK(r == m, "randInt(%u) maps the raw output %u to %u", n, raw, r); else MC_CHECK(r == 0, "randInt(%u) with rejected output %u returns %u instead of drawing again", n, raw, r); if (n <= 300 && m <= n) hit[r]++; uint32_t nx = g.randInt(); MC_CHECK(nx == (m <= n ? raw : 0x12345678u), "randInt(%u) consumes the wrong number of outputs", n); }
    for (size_t k = 1; k < hit.size(); k++) MC_CHECK(hit[k] == hit[0], "randInt(%u) hits %d %d times and 0 %d times", n, (int)k, hit[k], hit[0]);
}
static void mt_reals() {
    int hi = mc::choose(256); mc::op(); mc::state(hi); double prev = -1, pe = -1, pd = -1; for (int lo = 0; lo < 256; lo++) for (int e = 0; e < 2; e++) { uint32_t raw = (uint32_t)hi << 24 | (uint32_t)lo << 16 | (e ? 0xffff : 0); MT& g = primed({raw, raw, raw, raw, raw, raw}); double a = g.rand(), b = g.randExc(), c = g.randDblExc(), d = g.rand(10), x = g.randExc(10), y = g.randDblExc(10); MC_CHECK(a >= 0 && a <= 1 && fabs(a - raw / 4294967295.0) < 1e-15, "rand() for %u is %.17g", raw, a); MC_CHECK(b >= 0 && b < 1 && fabs(b - raw / 4294967296.0) < 1e-15, "randExc() for %u is %.17g", raw, b); MC_CHECK(c > 0 && c < 1 && fabs(c - (raw + 0.5) / 4294967296.0) < 1e-15, "randDblExc() for %u is %.17g", raw, c); MC_CHECK(fabs(d - 10 * a) < 1e-14 && d <= 10 && fabs(x - 10 * b) < 1e-14 && x < 10 && fabs(y - 10 * c) < 1e-14 && y > 0 && y < 10, "scaled reals for %u", raw); MC_CHECK(a > prev && b > pe && c > pd, "reals are not increasing at %u", raw); prev = a; pe = b; pd = c; if (raw == 0xffffffffu) MC_CHECK(a == 1, "rand() never reaches 1: %.17g", a);
        for (uint32_t r2 : {0u, 0x80000000u, 0xffffffffu}) { MT& q = primed({raw, r2}); double z = q.rand53(); MC_CHECK(z >= 0 && z < 1 && fabs(z - ((double)(raw >> 5) * 67108864 + (r2 >> 6)) / 9007199254740992.0) < 1e-17 + 1e-16 * z, "rand53 for %u %u is %.17g", raw, r2, z); MT& p = primed({raw}); MC_CHECK(p() == a, "operator()"); } }
}
static void mt_normal() { // moments over a full grid of raw outputs
    mc::op(); mc::state(1); for (double mean : {0.0, -3.0, 10.0}) for (double var : {1.0, 4.0, 0.25}) { double s = 0, s2 = 0; int n = 200; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { MT& g = primed({(uint32_t)((i + 0.5) / n * 4294967296.0), (uint32_t)((j + 0.5) / n * 4294967296.0)}); double z = g.randNorm(mean, var); s += z; s2 += z * z; } s /= n * n; s2 = s2 / (n * n) - s * s; MC_CHECK(fabs(s - mean) < 0.01, "randNorm(%g, %g) has mean %g", mean, var, s); MC_CHECK(fabs(s2 - var) < 0.02 * var, "randNorm(mean %g, variance %g) has variance %g", mean, var, s2); }
}
static void mt_auto() { mc::op(); mc::state(1); MT a, b; bool differ = false; for (int i = 0; i < 10; i++) differ = differ || a.randInt() != b.randInt(); MC_CHECK(differ, "two automatically seeded generators agree"); }
// ---- xorshift
static uint64_t xs_seed(int i) { return i < 64 ? 1ULL << i : i < 128 ? ~(1ULL << (i - 64)) : i < 500 ? (uint64_t)i : (uint64_t)i * 0x9E3779B97F4A7C15ULL; }
struct r64 { uint64_t x; uint64_t next() { x ^= x >> 12; x ^= x << 25; x ^= x >> 27; return x * 2685821657736338717ULL; } };
struct r1024 { uint64_t s[16]; int p; uint64_t next() { uint64_t a = s[p], b = s[p = (p + 1) & 15]; b ^= b << 31; b ^= b >> 11; a ^= a >> 30; return (s[p] = a ^ b) * 1181783497276652981ULL; } };
static void xorshift() {
    int i = mc::choose(2000); uint64_t s = xs_seed(i); mc::op(); mc::state(i); ar::xorshift_64star g(s), g2; g2.seed(s); r64 r{s}; ar::xorshift_64star cp(g); for (int k = 0; k < 100; k++) { uint64_t a = g.next(), b = r.next(); MC_CHECK(a == b && g2() == b, "xorshift64* with seed %llu: output %d is %llu, expected %llu", (unsigned long long)s, k, (unsigned long long)a, (unsigned long long)b); MC_CHECK(a != 0, "xorshift64* reaches the zero state"); if (k == 50) cp = g; else if (k > 50) MC_CHECK(cp.next() == a, "copy of xorshift64* continues differently"); }
    r64 sd{s}; r1024 q; q.p = 0; uint64_t st[16]; for (int k = 0; k < 16; k++) st[k] = q.s[k] = sd.next(); ar::xorshift_1024star h(s), h2(st), h3; h3.next(); h3.seed(s); ar::xorshift_1024star h4; h4.next(); h4.next(); h4.seed(st); ar::xorshift_1024star c2; for (int k = 0; k < 100; k++) { uint64_t a = h.next(), b = q.next(); MC_CHECK(a == b && h2() == b && h3.next() == b && h4.next() == b, "xorshift1024* with seed %llu: output %d is %llu, expected %llu", (unsigned long long)s, k, (unsigned long long)a, (unsigned long long)b); if (k == 37) c2 = h; else if (k > 37) MC_CHECK(c2.next() == a, "copy of xorshift1024* continues differently"); }
    static const uint64_t B[] = {0, 1, 2, 9, 10, 255, 1ULL << 32, (1ULL << 63) - 1, 1ULL << 63, ~0ULL - 1, ~0ULL}; for (uint64_t lo : B) for (uint64_t hi : B) if (lo <= hi) { ar::xorshift_64star u(s); r64 w{s}; uint64_t x = u.next(lo, hi), n = w.next(), e = hi - lo + 1 ? lo + n % (hi - lo + 1) : n; MC_CHECK(x == e && x >= lo && x <= hi, "next(%llu, %llu) is %llu", (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)x); uint64_t y = u.next_uniform(lo, hi); MC_CHECK(y >= lo && y <= hi, "next_uniform(%llu, %llu) is %llu", (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)y); ar::xorshift_1024star v(s); x = v.next(lo, hi); MC_CHECK(x >= lo && x <= hi, "next(%llu, %llu) is %llu", (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)x); y = v.next_uniform(lo, hi); MC_CHECK(y >= lo && y <= hi, "next_uniform is %llu", (unsigned long long)y); double d = v.next_0_1(), d2 = u.next_0_1(); MC_CHECK(d >= 0 && d <= 1 && d2 >= 0 && d2 <= 1, "next_0_1 is %g", d); }
    MC_CHECK(ar::xorshift_64star::min() == 0 && ar::xorshift_64star::max() == ~0ULL && ar::xorshift_1024star::min() == 0 && ar::xorshift_1024star::max() == ~0ULL, "generator limits");
}
static void xorshift_space() { // the state transition is linear and invertible, so no nonzero state leads to zero
    mc::op(); mc::state(1); uint64_t inv = 1, m = 2685821657736338717ULL; for (int i = 0; i < 6; i++) inv *= 2 - m * inv; uint64_t col[64]; for (int i = 0; i < 64; i++) { ar::xorshift_64star g(1ULL << i); col[i] = g.next() * inv; } for (int i = 0; i < 64; i++) for (int j = 0; j < i; j++) { ar::xorshift_64star g(1ULL << i | 1ULL << j); MC_CHECK(g.next() * inv == (col[i] ^ col[j]), "the transition is not linear"); } int rank = 0; for (int b = 63; b >= 0; b--) { int p = -1; for (int i = rank; i < 64; i++) if (col[i] >> b & 1) { p = i; break; } if (p < 0) continue; std::swap(col[rank], col[p]); for (int i = 0; i < 64; i++) if (i != rank && (col[i] >> b & 1)) col[i] ^= col[rank]; rank++; } MC_CHECK(rank == 64, "the transition has rank %d", rank);
}
// ---- range reduction
template<class U, class V> static void reduce8() { // every range of V with every output of an 8-bit U
    typedef std::numeric_limits<V> L; int lo = mc::choose(256) + (int)L::min(); mc::state(lo); for (int hi = lo; hi <= (int)L::max(); hi++) { mc::op(); int w = hi - lo + 1; std::vector<int> hit(w); for (int r = 0; r < 256; r++) { V x = ar::integer_to_range<U, V>((U)r, (V)lo, (V)hi); MC_CHECK((int)x >= lo && (int)x <= hi, "integer_to_range(%d, %d, %d) is %d", r, lo, hi, (int)x); hit[(int)x - lo]++; } for (int k = 0; k < w; k++) MC_CHECK(hit[k] == 256 / w || hit[k] == 256 / w + 1, "integer_to_range over [%d, %d] hits %d %d times of 256", lo, hi, lo + k, hit[k]); }
}
template<class U, class V> static void reduce_wide() { // ranges of a wide V with outputs of U
    typedef std::numeric_limits<V> L; std::vector<V> p; for (int i = 0; i < 3; i++) { p.push_back(L::min() + i); p.push_back(L::max() - i); p.push_back((V)i); p.push_back((V)(L::max() / 2 + i)); p.push_back((V)(L::min() / 2 + i)); if (L::is_signed) p.push_back((V)-i); } int n = (int)p.size(); V lo = p[mc::choose(n)], hi = p[mc::choose(n)]; if (lo > hi) return; mc::op(); mc::state(mc::H()((uint64_t)lo)((uint64_t)hi)); std::vector<U> raw; for (int i = 0; i < 200; i++) { raw.push_back((U)i); raw.push_back((U)(std::numeric_limits<U>::max() - i)); raw.push_back((U)(std::numeric_limits<U>::max() / 200 * i)); } unsigned __int128 w = (unsigned __int128)((__int128)hi - (__int128)lo) + 1; for (U r : raw) { V x = ar::integer_to_range<U, V>(r, lo, hi); MC_CHECK(x >= lo && x <= hi, "integer_to_range(%llu, %lld, %lld) is %lld", (unsigned long long)r, (long long)lo, (long long)hi, (long long)x); if (r < w && w <= ((unsigned __int128)1 << (8 * sizeof(V) - 1))) MC_CHECK(x == (V)(lo + (V)r), "integer_to_range(%llu, %lld, %lld) is %lld", (unsigned long long)r, (long long)lo, (long long)hi, (long long)x); }
}
template<class U> static void uniform8() { // every range, every first output: accepted outputs are spread evenly
    int lo = mc::choose(256); mc::state(lo); for (int hi = lo; hi < 256; hi++) { mc::op(); int w = hi - lo + 1; std::vector<int> hit(w); int accepted = 0; for (int r = 0; r < 256; r++) { int calls = 0; U x = ar::uniform_next<U>([&] { return (U)(calls++ == 0 ? r : 0); }, (U)lo, (U)hi); MC_CHECK(x >= lo && x <= hi, "uniform_next over [%d, %d] is %d", lo, hi, (int)x); if (calls == 1) { accepted++; hit[x - lo]++; } } MC_CHECK(accepted > 127, "uniform_next over [%d, %d] rejects %d of 256 outputs", lo, hi, 256 - accepted); for (int k = 0; k < w; k++) MC_CHECK(hit[k] == hit[0] && hit[k] == 256 / w, "uniform_next over [%d, %d] maps %d accepted outputs to %d and %d to %d", lo, hi, hit[k], lo + k, hit[0], lo); int c = 0; U x = ar::uniform_next<U>([&] { c++; return (U)255; }, (U)lo, (U)hi); MC_CHECK(x >= lo && x <= hi && c <= 20, "uniform_next with hopeless outputs: %d after %d draws", (int)x, c); }
}
static void uniform16() { // every 16-bit width: acceptance threshold and multiples
    int wh = mc::choose(256); mc::op(); mc::state(wh); for (int wl = 0; wl < 256; wl++) { int w = wh << 8 | wl; uint16_t bm = ar::biggest_multiple<uint16_t>((uint16_t)w); if (w == 0) { MC_CHECK(bm == 0, "biggest_multiple(0) is %d", bm); continue; } int want = 65536 / w * w; MC_CHECK(bm == (uint16_t)want, "biggest_multiple<uint16_t>(%d) is %d, expected %d", w, bm, want); int lim = want; for (int r : {0, 1, w - 1, w, lim - 1, lim, lim + 1, 65535}) if (r >= 0 && r < 65536) { int calls = 0; uint16_t lo = (uint16_t)(65536 - w > 7 ? 7 : 0); uint16_t x = ar::uniform_next<uint16_t>([&] { return (uint16_t)(calls++ == 0 ? r : 0); }, lo, (uint16_t)(lo + w - 1)); MC_CHECK((calls == 1) == (r < lim), "uniform_next over a width of %d %s the output %d", w, calls == 1 ? "accepts" : "rejects", r); MC_CHECK(x == lo + (r < lim ? r % w : 0), "uniform_next over a width of %d maps %d to %d", w, r, x); } }
}
static void uniform_big() { mc::op(); int b = mc::choose(63) + 1, d = mc::choose(3) - 1; uint64_t w = (1ULL << b) + d; mc::state(mc::H()(b)(d)); unsigned __int128 full = (unsigned __int128)1 << 64; uint64_t lim = (uint64_t)(full / w * w); MC_CHECK(ar::biggest_multiple<uint64_t>(w) == lim, "biggest_multiple(%llu) is %llu", (unsigned long long)w, (unsigned long long)ar::biggest_multiple<uint64_t>(w)); for (uint64_t r : {(uint64_t)0, w - 1, w, lim - 1, lim, ~(uint64_t)0}) { int calls = 0; uint64_t x = ar::uniform_next<uint64_t>([&] { return calls++ == 0 ? r : 0; }, 0, w - 1); bool acc = lim == 0 || r < lim; MC_CHECK((calls == 1) == acc && x == (acc ? r % w : 0), "uniform_next over a width of %llu: output %llu gives %llu after %d draws", (unsigned long long)w, (unsigned long long)r, (unsigned long long)x, calls); } int calls = 0; uint64_t x = ar::uniform_next<uint64_t>([&] { calls++; return 77 * w; }, 0, ~0ULL); MC_CHECK(calls == 1 && x == 77 * w, "full range"); uint32_t w32 = (uint32_t)w; if (w32) { uint32_t l32 = (uint32_t)((1ULL << 32) / w32 * w32); MC_CHECK(ar::biggest_multiple<uint32_t>(w32) == l32, "biggest_multiple<uint32_t>(%u)", w32); } }
template<class U> static void unit(int bits) { int hi = mc::choose(256); mc::op(); mc::state(hi); double prev = -1; uint64_t mx = std::numeric_limits<U>::max(); for (int lo = 0; lo < 256; lo++) { uint64_t top = bits == 8 ? hi : (uint64_t)(hi << 8 | lo); U v = (U)(bits <= 16 ? top : (top << (bits - 16)) + (top == 65535 ? (1ULL << (bits - 16)) - 1 : 0)); double d = ar::integer_to_double_0_1<U>(v); MC_CHECK(d >= 0 && d <= 1 && fabs(d - (double)v / (double)mx) < 1e-14, "integer_to_double_0_1(%llu) is %.17g", (unsigned long long)v, d); if (bits > 8) MC_CHECK(d > prev, "not increasing"); prev = d; if (v == 0) MC_CHECK(d == 0, "zero maps to %g", d); if ((uint64_t)v == mx) MC_CHECK(fabs(d - 1) < 1e-15, "the maximum maps to %.17g", d); if (bits == 8) break; } }
MC_SETUP(all) {
    int n = mc::tier(64, 512); mc::add("mt_seeds", [n] { mt_seeds(n); }, 8); mc::add("mt_arrays", [n] { mt_arrays(n / 8); }, 8); mc::add("mt_continue", mt_continue, 16); mc::add("mt_ranges", mt_ranges, 16); mc::add("mt_reals", mt_reals, 8); mc::add("mt_normal", mt_normal, 1); mc::add("mt_auto", mt_auto, 1);
    mc::add("xorshift", xorshift, 8); mc::add("xorshift_space", xorshift_space, 1);
    mc::add("reduce_u8_u8", reduce8<uint8_t, uint8_t>, 8); mc::add("reduce_u8_i8", reduce8<uint8_t, int8_t>, 8); mc::add("reduce_u32_i32", reduce_wide<uint32_t, int32_t>, 2); mc::add("reduce_u64_i32", reduce_wide<uint64_t, int32_t>, 2); mc::add("reduce_u64_i64", reduce_wide<uint64_t, int64_t>, 2); mc::add("reduce_u64_u64", reduce_wide<uint64_t, uint64_t>, 2); mc::add("reduce_u32_u64", reduce_wide<uint32_t, uint64_t>, 2); mc::add("reduce_u64_u8", reduce_wide<uint64_t, uint8_t>, 2); mc::add("reduce_u64_i16", reduce_wide<uint64_t, int16_t>, 2);
    mc::add("uniform8", uniform8<uint8_t>, 8); mc::add("uniform16", uniform16, 4); mc::add("uniform_big", uniform_big, 2); mc::add("unit8", [] { unit<uint8_t>(8); }, 1); mc::add("unit16", [] { unit<uint16_t>(16); }, 1); mc::add("unit32", [] { unit<uint32_t>(32); }, 1); mc::add("unit64", [] { unit<uint64_t>(64); }, 1);
}
