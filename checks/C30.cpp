// C30 basic integer arithmetic: every pair of 8-bit values and every pair of boundary values of the wider types against 128-bit arithmetic.
// MC_BOUNDS: every pair of values of int8/uint8 and every pair from a dense grid (limits, powers of two, squares and cubes with their neighbours, small values) of 16/32/64-bit signed and unsigned types, for gcd/gcd_ex/gcd_max/lcm/divisions/multiple/min/max/bound/abs/square/cube; powT for every base and every exponent with a representable result; integer roots of every 16-bit value and, for wider types, of k^2+d and k^3+d, |d| <= 2, for every k on a grid of about 4000 (quick) / 60000 (thorough) values up to the type's limit
// MC_ASSUME: gcd, extended gcd and lcm of negative numbers are defined up to sign, as documented; (minimum, -1) is excluded from gcd/lcm/gcd_max of a signed type; results which are not representable are excluded
#include "mc.h"
#include <stdint.h>
#include <math.h>
#include <vector>
#include <set>
#include <limits>
#include "altruct/algorithm/math/base.h"
#include "altruct/algorithm/math/intrinsic.h"
using namespace altruct::math; typedef __int128 W;
static std::string S(W x) { if (x == 0) return "0"; bool n = x < 0; unsigned __int128 u = n ? 0 - (unsigned __int128)x : (unsigned __int128)x; std::string s; while (u) { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; } return n ? "-" + s : s; }
#define P(x) S((W)(x)).c_str()
static W mag(W x) { return x < 0 ? -x : x; }
static W ref_gcd(W a, W b) { a = mag(a); b = mag(b); while (b) { W r = a % b; a = b; b = r; } return a; }
template<class T> static bool fits(W x) { return x >= (W)std::numeric_limits<T>::min() && x <= (W)std::numeric_limits<T>::max(); }
static W ref_root(W x, int k) { if (x < 0) return -ref_root(-x, k); W lo = 0, hi = k == 2 ? (W)1 << 33 : (W)1 << 23; while (lo < hi) { W m = (lo + hi + 1) / 2, p = k == 2 ? m * m : m * m * m; if (p <= x) lo = m; else hi = m - 1; } return lo; }
static W fl(W a, W b) { W q = a / b; return q * b != a && ((a < 0) != (b < 0)) ? q - 1 : q; }
template<class T> static std::vector<T> grid() {
    typedef std::numeric_limits<T> L; std::set<W> s; auto add = [&](W x) { for (int d = -2; d <= 2; d++) if (fits<T>(x + d)) s.insert(x + d); };
    if (sizeof(T) == 1) { for (int x = (int)L::min(); x <= (int)L::max(); x++) s.insert(x); }
    else { for (int x = -12; x <= 12; x++) add(x); W mx = (W)L::max(), mn = (W)L::min(); for (W x : {mx, mn, mx / 2, mn / 2, mx / 3, mx / 3 * 2, mn / 3}) add(x); for (int b = 4; b <= L::digits; b += sizeof(T) > 4 ? 5 : 3) { add((W)1 << b); add(-((W)1 << b)); } W q = ref_root(mx, 2), c = ref_root(mx, 3); for (W x : {q * q, q * (q - 1), q, c * c * c, c * c, c}) { add(x); add(-x); } for (W x : {(W)30, (W)36, (W)60, (W)64, (W)97, (W)120, (W)210, (W)2310, (W)30030, (W)720720, (W)1 << 20}) { if (fits<T>(x)) s.insert(x); if (fits<T>(-x)) s.insert(-x); } }
    return std::vector<T>(s.begin(), s.end());
}
template<class T> static void pairs() {
    typedef std::numeric_limits<T> L; static const std::vector<T> g = grid<T>(); T a = g[mc::choose((int)g.size())]; mc::state((uint64_t)a); mc::trace("a = %s", P(a)); W A = (W)a; const char* sg = L::is_signed ? "signed" : "unsigned"; int bits = 8 * (int)sizeof(T);
    { if (fits<T>(mag(A))) MC_CHECK((W)absT<T>(a) == mag(A), "absT(%s) is %s (%s %d bits)", P(a), P(absT<T>(a)), sg, bits); if (fits<T>(A * A)) MC_CHECK((W)sqT<T>(a) == A * A, "sqT(%s)", P(a)); if (mag(A) < ((W)1 << 40) && fits<T>(A * A * A)) MC_CHECK((W)cbT<T>(a) == A * A * A, "cbT(%s)", P(a)); }
    for (T b : g) {
        W B = (W)b; mc::op();
        MC_CHECK((W)minT<T>(a, b) == std::min(A, B) && (W)maxT<T>(a, b) == std::max(A, B), "min/max of %s and %s", P(a), P(b));
        if (a <= b) for (T c : {(T)0, (T)1, a, b, (T)L::min(), (T)L::max(), (T)(a / 2 + b / 2)}) MC_CHECK((W)boundT<T>(c, a, b) == std::min(std::max((W)c, A), B), "boundT(%s, %s, %s)", P(c), P(a), P(b));
        { T r; bool o = add_overflow<T>(a, b, &r); MC_CHECK(o == !fits<T>(A + B) && (o || (W)r == A + B), "add_overflow(%s, %s)", P(a), P(b)); }
        if (B != 0 && fits<T>(fl(A, B))) { W f = fl(A, B); T r = div_floor<T>(a, b); MC_CHECK((W)r == f, "div_floor(%s, %s) is %s, expected %s (%s %d bits)", P(a), P(b), P(r), P(f), sg, bits); }
        if (B != 0 && fits<T>(-fl(-A, B)) && !(B == -1 && !fits<T>(-A))) { W f = -fl(-A, B); T r = div_ceil<T>(a, b); MC_CHECK((W)r == f, "div_ceil(%s, %s) is %s, expected %s (%s %d bits)", P(a), P(b), P(r), P(f), sg, bits); }
        if (B != 0 && !(B == -1 && !fits<T>(-A))) { W q = (2 * mag(A) + mag(B)) / (2 * mag(B)), f = (A < 0) != (B < 0) ? -q : q; T r = div_round<T>(a, b); MC_CHECK((W)r == f, "div_round(%s, %s) is %s, expected %s (%s %d bits)", P(a), P(b), P(r), P(f), sg, bits); }
        if (A != 0 && !(A == -1 && !fits<T>(-B))) { W m = mag(A), f = -fl(-B, m) * m; if (fits<T>(f)) { T r = multiple<T>(a, b); MC_CHECK((W)r == f, "multiple of %s at least %s is %s, expected %s (%s %d bits)", P(a), P(b), P(r), P(f), sg, bits); } }
        if (L::is_signed && ((a == L::min() && B == -1) || (b == L::min() && A == -1))) continue;
        W g0 = ref_gcd(A, B); T h = gcd<T>(a, b); if (fits<T>(g0)) MC_CHECK(mag((W)h) == g0, "gcd(%s, %s) is %s, expected %s (%s %d bits)", P(a), P(b), P(h), P(g0), sg, bits);
        for (int want = 0; want < 4; want++) { T x = 77, y = 77; int steps = -1; T e = gcd_ex<T>(a, b, want & 1 ? &x : nullptr, want & 2 ? &y : nullptr, &steps); if (fits<T>(g0)) MC_CHECK(mag((W)e) == g0, "gcd_ex(%s, %s) is %s, expected %s (%s %d bits)", P(a), P(b), P(e), P(g0), sg, bits); MC_CHECK(steps >= 0, "gcd_ex reports %d steps", steps); if (want == 3) { if (L::is_signed) MC_CHECK(A * (W)x + B * (W)y == (W)e, "gcd_ex(%s, %s) = %s with coefficients %s and %s", P(a), P(b), P(e), P(x), P(y)); else MC_CHECK((T)(a * (uint64_t)x + b * (uint64_t)y) == e, "gcd_ex(%s, %s) = %s with coefficients %s and %s (unsigned)", P(a), P(b), P(e), P(x), P(y)); if (L::is_signed && g0) MC_CHECK(mag((W)x) <= std::max((W)1, mag(B) / g0) && mag((W)y) <= std::max((W)1, mag(A) / g0), "gcd_ex(%s, %s) has coefficients %s and %s, not minimal", P(a), P(b), P(x), P(y)); } else { MC_CHECK((want & 1) || x == 77, "gcd_ex writes x"); MC_CHECK((want & 2) || y == 77, "gcd_ex writes y"); } if (want < 3) { T x3, y3; gcd_ex<T>(a, b, &x3, &y3); MC_CHECK((!(want & 1) || x == x3) && (!(want & 2) || y == y3), "gcd_ex(%s, %s) depends on which outputs are asked for", P(a), P(b)); } }
        { W l = g0 ? A / g0 * B : 0; if (fits<T>(l) && fits<T>(-l) | (!L::is_signed)) { T r = lcm<T>(a, b); MC_CHECK(mag((W)r) == mag(l), "lcm(%s, %s) is %s, expected %s (%s %d bits)", P(a), P(b), P(r), P(l), sg, bits); } }
        if (A > 0 && B > 0) { W m = 1, rest = B; for (;;) { W k = ref_gcd(A, rest); if (k == 1) break; m *= k; rest /= k; } T r = gcd_max<T>(a, b); MC_CHECK((W)r == m, "gcd_max(%s, %s) is %s, expected %s (%s %d bits)", P(a), P(b), P(r), P(m), sg, bits); }
    }
}
template<class T, class E> static void powers() {
    static const std::vector<T> g = grid<T>(); T a = g[mc::choose((int)g.size())]; W A = (W)a, r = 1; mc::state((uint64_t)a); int top = 0; for (int e = 0; e <= 130; e++) { if (e > 0) { r *= A; if (!fits<T>(r)) break; } mc::op(); T p = powT<T, E>(a, (E)e); MC_CHECK((W)p == r, "powT(%s, %d) is %s, expected %s", P(a), e, P(p), P(r)); top = e; if (mag(r) <= 1 && e > 100) break; } mc::trace("%s^0..%d", P(a), top);
}
template<class T> static void root(T x) {
    W X = (W)x, s = ref_root(X, 2), c = ref_root(X, 3); mc::op();
    if (fits<T>(-X) || X >= 0) { T r = sqrtT<T>(x); MC_CHECK((W)r == s, "sqrtT(%s) is %s, expected %s (%d bytes)", P(x), P(r), P(s), (int)sizeof(T)); r = cbrtT<T>(x); MC_CHECK((W)r == c, "cbrtT(%s) is %s, expected %s (%d bytes)", P(x), P(r), P(c), (int)sizeof(T)); }
    if (X >= 0) { MC_CHECK(is_square<T>(x) == (s * s == X), "is_square(%s) is %d", P(x), (int)is_square<T>(x)); } if (fits<T>(-X) || X >= 0) MC_CHECK(is_cube<T>(x) == (c * c * c == X), "is_cube(%s) is %d", P(x), (int)is_cube<T>(x));
    if (fits<int64_t>(X)) { int64_t y = (int64_t)x; W S1 = mag(s), S2 = S1 * S1 < mag(X) ? S1 + 1 : S1, C1 = mag(c), C2 = C1 * C1 * C1 < mag(X) ? C1 + 1 : C1; W sg = X < 0 ? -1 : 1;
        if (fits<int32_t>(sg * S1) && y != INT64_MIN) MC_CHECK((W)isqrt(y) == sg * S1, "isqrt(%s) is %s, expected %s", P(y), P(isqrt(y)), P(sg * S1)); if (fits<int32_t>(sg * S2) && y != INT64_MIN) MC_CHECK((W)isqrtc(y) == sg * S2, "isqrtc(%s) is %s, expected %s", P(y), P(isqrtc(y)), P(sg * S2)); MC_CHECK((W)icbrt(y) == sg * C1, "icbrt(%s) is %s, expected %s", P(y), P(icbrt(y)), P(sg * C1)); MC_CHECK((W)icbrtc(y) == sg * C2, "icbrtc(%s) is %s, expected %s", P(y), P(icbrtc(y)), P(sg * C2));
        if (fits<int64_t>(X * X)) MC_CHECK((W)isq(y) == X * X, "isq(%s)", P(y)); if (mag(X) < ((W)1 << 40) && fits<int64_t>(X * X * X)) MC_CHECK((W)icb(y) == X * X * X, "icb(%s)", P(y)); }
}
template<class T> static void roots() { // k^2+d, k^3+d and the limits
    typedef std::numeric_limits<T> L; int n = mc::tier(4000, 60000), k = mc::choose(n); mc::state(k); for (int e = 2; e <= 3; e++) { W m = ref_root((W)L::max(), e); std::set<W> ks; ks.insert(k); ks.insert(m - k); ks.insert(m * k / n); W p2 = (W)1 << (k % 40); ks.insert(p2 + (k % 97) - 48); for (W q : ks) if (q >= 0 && q <= m + 1) for (int d = -2; d <= 2; d++) { W x = (e == 2 ? q * q : q * q * q) + d; if (fits<T>(x)) root<T>((T)x); if (fits<T>(-x)) root<T>((T)-x); } } W z = (W)L::max() - k; if (fits<T>(z)) root<T>((T)z); z = (W)L::min() + k; if (fits<T>(z)) root<T>((T)z);
}
template<class T> static void roots_all() { int h = mc::choose(256); mc::state(h); if (sizeof(T) == 1) { root<T>((T)h); return; } for (int l = 0; l < 256; l++) root<T>((T)(h << 8 | l)); }
template<class T> static void real(double scale) { int k = mc::choose(2000); mc::op(); mc::state(k); T x = (T)(k * scale); MC_CHECK(fabs((double)(sqT<T>(sqrtT<T>(x)) - x)) <= 1e-6 * (1 + fabs((double)x)), "sqrtT(%g)", (double)x); if (sizeof(T) <= 8) { T y = cbrtT<T>(x); MC_CHECK(fabs((double)(cbT<T>(y) - x)) <= 1e-5 * (1 + fabs((double)x)), "cbrtT(%g)", (double)x); y = cbrtT<T>(-x); MC_CHECK(fabs((double)(cbT<T>(y) + x)) <= 1e-5 * (1 + fabs((double)x)), "cbrtT(-%g)", (double)x); } MC_CHECK(absT<T>(-x) == x && absT<T>(x) == x && minT<T>(x, -x) == -x && maxT<T>(x, -x) == x, "abs/min/max of %g", (double)x); }
template<class T> static void reg(const char* n) { std::string s = n; mc::add(s + "_pairs", pairs<T>, 4); mc::add(s + "_pow", powers<T, int>, 1); mc::add(s + "_pow64", powers<T, uint64_t>, 1); if (sizeof(T) <= 2) mc::add(s + "_roots_all", roots_all<T>, 2); else mc::add(s + "_roots", roots<T>, 8); }
MC_SETUP(all) {
    reg<int8_t>("int8"); reg<uint8_t>("uint8"); reg<int16_t>("int16"); reg<uint16_t>("uint16"); reg<int32_t>("int32"); reg<uint32_t>("uint32"); reg<int64_t>("int64"); reg<uint64_t>("uint64"); reg<long long>("longlong"); reg<unsigned long long>("ulonglong");
    mc::add("double", [] { real<double>(0.37); }, 1); mc::add("float", [] { real<float>(0.5); }, 1); mc::add("big_double", [] { real<double>(1e12); }, 1);
}
