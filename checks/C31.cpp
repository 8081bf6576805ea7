// C31 bit tricks: every 8- and 16-bit value and every 32/64-bit value made of few runs of ones against bit-by-bit definitions.
// MC_BOUNDS: every 8- and 16-bit value (two-operand functions: every pair of 8-bit values and a 16-bit grid); every 32-bit value with up to 2 (quick) / 3 (thorough) runs of ones and every 64-bit value with up to 2 runs, each also multiplied by small and alternating patterns; every bit position and count of every width; every combination of every size up to 14 (quick) / 20 (thorough) bits enumerated at every width, and full-width enumerations of 1, 2, w-2, w-1 and w ones of w = 8, 16, 32, 64
// MC_ASSUME: unsigned types (ilog2 also signed); next_pow2 and shifts only where the result is representable; sign_mag of the minimum value has no counterpart
#include "mc.h"
#include <stdint.h>
#include <vector>
#include <limits>
#include "altruct/algorithm/math/bits.h"
using namespace altruct::math;
#define X (unsigned long long)
template<class T> static int bits() { return 8 * (int)sizeof(T); }
template<class T> static bool bit(T x, int i) { return (uint64_t)x >> i & 1; }
template<class T> static void one(T x) { // reference by single bits
    const int w = bits<T>(); mc::op(); int cnt = 0, hi = -1, lo = -1; uint64_t rev = 0, ord = 0, xrd = 0, gray = 0; for (int i = 0; i < w; i++) if (bit(x, i)) { cnt++; hi = i; if (lo < 0) lo = i; rev |= 1ULL << (w - 1 - i); } bool p = false; for (int i = w - 1; i >= 0; i--) { p ^= bit(x, i); if (p) xrd |= 1ULL << i; if (i <= hi) ord |= 1ULL << i; if (bit(x, i) != (i + 1 < w && bit(x, i + 1))) gray |= 1ULL << i; }
    #define C(e, want) MC_CHECK((uint64_t)(e) == (uint64_t)(want), #e " of %#llx (%d bits) is %#llx, expected %#llx", X x, w, X(e), X(want))
    C(ilog2(x), hi < 0 ? 0 : hi); typedef typename std::make_signed<T>::type SI; C(ilog2((SI)x), hi < 0 ? 0 : hi); C(bit_cnt1(x), cnt); C((uint64_t)bit_reverse(x), rev); C((uint64_t)bit_reverse((T)bit_reverse(x)), (uint64_t)x); C((uint64_t)or_down<T>(x), ord); C((uint64_t)xor_down<T>(x), xrd); C((uint64_t)gray_to_bin<T>(x), xrd); C((uint64_t)bin_to_gray<T>(x), gray); C((uint64_t)gray_to_bin<T>(bin_to_gray<T>(x)), (uint64_t)x); C((uint64_t)bin_to_gray<T>(gray_to_bin<T>(x)), (uint64_t)x);
    C((uint64_t)hi_bit<T>(x), hi < 0 ? 0 : 1ULL << hi); C((uint64_t)lo_bit<T>(x), lo < 0 ? 0 : 1ULL << lo); C(lzc<T>(x), w - 1 - hi); C(tzc<T>(x), lo < 0 ? w : lo); C(is_pow2<T>(x), cnt <= 1); C(is_not_pow2<T>(x), cnt > 1); C((uint64_t)(T)neg<T>(x), (uint64_t)(T)(0 - (uint64_t)x)); if (hi < w - 1) C((uint64_t)next_pow2<T>(x), hi < 0 ? 1 : 2ULL << hi);
    uint64_t HB = 1ULL << (w - 1); if (x == 0 || (uint64_t)x != HB) { T s = sign_mag<T>(x); uint64_t m = (uint64_t)x & HB ? (0 - (uint64_t)x) & (HB - 1) : (uint64_t)x; C((uint64_t)s, m | ((uint64_t)x & HB)); C((uint64_t)sign_mag<T>(s), (uint64_t)x); }
}
template<class T> static void positions(T x) { // single bit access at every position
    const int w = bits<T>(); mc::op(); for (int i = 0; i < w; i++) { uint64_t m = 1ULL << i, v = (uint64_t)x, lo = v & (m - 1), all = w == 64 ? ~0ULL : (1ULL << w) - 1; C((uint64_t)(get_bit<T>(x, i)), v >> i & 1); C((uint64_t)(set_bit<T>(x, i)), v | m); C((uint64_t)(flip_bit<T>(x, i)), v ^ m); C((uint64_t)(clear_bit<T>(x, i)), (v & ~m) & all); uint64_t er = lo | (i + 1 < w ? (v >> (i + 1)) << i : 0); C((uint64_t)(erase_bit<T>(x, i)), er); }
}
template<class T> static void pair(T a, T b, T m) { mc::op(); for (int i = 0; i < bits<T>(); i++) MC_CHECK(bit((T)mix_bits<T>(a, b, m), i) == (bit(m, i) ? bit(b, i) : bit(a, i)), "mix_bits(%#llx, %#llx, %#llx) is %#llx", X a, X b, X m, X mix_bits<T>(a, b, m)); }
static void all8() { int a = mc::choose(256); mc::state(a); one<uint8_t>((uint8_t)a); positions<uint8_t>((uint8_t)a); for (int b = 0; b < 256; b++) for (int m = 0; m < 256; m += 1) pair<uint8_t>((uint8_t)a, (uint8_t)b, (uint8_t)m); }
static void all16() { int a = mc::choose(256); mc::state(a); for (int b = 0; b < 256; b++) { uint16_t x = (uint16_t)(a << 8 | b); one<uint16_t>(x); positions<uint16_t>(x); pair<uint16_t>(x, (uint16_t)(x * 40503), (uint16_t)~(x >> 3)); } }
template<class T> static T runs(int n) { const int w = bits<T>(); uint64_t v = 0; int from = 0; for (int r = 0; r < n; r++) { if (from > w) break; int s = from + mc::choose(w - from + 1); if (s == w) break; int e = s + 1 + mc::choose(w - s); uint64_t len = e - s; v |= (len == 64 ? ~0ULL : ((1ULL << len) - 1)) << s; from = e + 1; } return (T)v; }
template<class T> static void wide(int n) { T x = runs<T>(n); mc::state((uint64_t)x); one<T>(x); if (n <= 2) { positions<T>(x); static const uint64_t pat[] = {0x5555555555555555ULL, 0x3333333333333333ULL, 0x0f0f0f0f0f0f0f0fULL, 0x00ff00ff00ff00ffULL, 0x9249249249249249ULL, 0x123456789abcdefULL, 0x9e3779b97f4a7c15ULL}; for (uint64_t p : pat) { one<T>((T)((uint64_t)x & p)); one<T>((T)((uint64_t)x ^ p)); one<T>((T)((uint64_t)x * (p | 1))); pair<T>((T)p, (T)x, (T)(x >> 1)); } } }
template<class T> static void masks() { mc::op(); mc::state(bits<T>()); T x = 0; const int w = bits<T>(); MC_CHECK(bit_size<T>::value == w, "bit_size"); for (int i = 0; i < w; i++) C((uint64_t)make_bit<T>(i), 1ULL << i); for (int i = 0; i <= w; i++) { uint64_t m = i == 64 ? ~0ULL : (1ULL << i) - 1; MC_CHECK((uint64_t)make_ones<T>(i) == m, "make_ones(%d) of %d bits is %#llx", i, w, X make_ones<T>(i)); } }
// every combination of k of n bits is visited once, in increasing order, then the end is reported and the first one comes again
template<class T> static void combos(int n, int k) {
    uint64_t first = k == 64 ? ~0ULL : (1ULL << k) - 1; T x = (T)first; uint64_t prev = first; long count = 1; for (;;) { bool more = next_combination<T>(x, n); mc::op(); if (!more) break; MC_CHECK((uint64_t)x > prev, "next_combination(%#llx, %d) at %d bits goes to %#llx", X prev, n, bits<T>(), X x); MC_CHECK(__builtin_popcountll(x) == k && (n == 64 || (uint64_t)x >> n == 0), "next_combination(%#llx, %d) is %#llx", X prev, n, X x); prev = x; count++; if (count > 5000000) mc::fail("too many combinations of %d of %d", k, n); }
    double want = 1; for (int i = 1; i <= k; i++) want = want * (n - k + i) / i; MC_CHECK(count == (long)(want + 0.5), "next_combination visits %ld combinations of %d of %d bits (%d bit type), expected %.0f", count, k, n, bits<T>(), want); MC_CHECK((uint64_t)x == first, "after the last combination of %d of %d bits x is %#llx", k, n, X x);
}
template<class T> static void enumerate() { int w = bits<T>(), top = std::min(w, mc::tier(14, 20)), n = mc::choose(w + 1); mc::state(mc::H()(w)(n)); mc::trace("%d of %d bits", n, w); for (int k = 1; k <= n; k++) if (n <= top || k <= (n <= 32 ? 3 : 2) || k >= n - 2) combos<T>(n, k); }
MC_SETUP(all) {
    mc::add("all8", all8, 8); mc::add("all16", all16, 8); mc::add("runs32", [] { wide<uint32_t>(2); }, 8); mc::add("runs64", [] { wide<uint64_t>(2); }, 16); if (mc::thorough()) mc::add("runs32_3", [] { wide<uint32_t>(3); }, 16);
    mc::add("masks8", masks<uint8_t>, 1); mc::add("masks16", masks<uint16_t>, 1); mc::add("masks32", masks<uint32_t>, 1); mc::add("masks64", masks<uint64_t>, 1); mc::add("combinations8", enumerate<uint8_t>, 2); mc::add("combinations16", enumerate<uint16_t>, 2); mc::add("combinations32", enumerate<uint32_t>, 4); mc::add("combinations64", enumerate<uint64_t>, 4);
}
