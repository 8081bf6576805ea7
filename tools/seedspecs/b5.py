S="include/altruct/structure/container/"; X="experimental/include/altruct/"; A="include/altruct/algorithm/"; M="include/altruct/structure/math/"; G="experimental/include/altruct/algorithm/graph/"
H='#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <cstdint>\n#include <utility>\n#include <vector>\n#include <functional>\n#include <string>\n#include <algorithm>\n#include <numeric>\n#include <set>\n#include <map>\n'
SEEDS=[
dict(id="C33-garner-late-digit", prop="C33",
 edits=[(A+"math/modulos.h","            y -= castOf(y, vx[j].v);\n            y /= castOf(y, vap[j].M());","            y -= castOf(y, (j > 0 ? vx[j] : vap[j]).v);\n            y /= castOf(y, (j > 1 ? vap[j - 1] : vap[j]).M());")],
 needs="at least four moduli",
 breaks="the mixed-radix digits from the fourth one on are divided by the wrong modulus",
 demo=H+r'''
#include "altruct/structure/math/modulo.h"
#include "altruct/algorithm/math/modulos.h"
using namespace altruct::math;
int main() { int bad = 0; int p[5] = {2, 3, 5, 7, 11}; for (int k = 1; k <= 5; k++) { int m = 1; for (int i = 0; i < k; i++) m *= p[i]; for (int x = 0; x < m; x++) { std::vector<moduloX<int>> v; for (int i = 0; i < k; i++) v.push_back(moduloX<int>(x, p[i])); auto r = garner(v); long long s = 0, q = 1; for (int i = 0; i < k; i++) s += r[i].v * q, q *= p[i]; if (s != x) bad++; } } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C33-hensel-p2-low-bit", prop="C33",
 edits=[(A+"math/modulos.h","            else if (s[j] >= w2) {\n                s[j] += w2 * 2;\n            }","            else if (s[j] >= w2 + w2 / 2) {\n                s[j] += w2 * 2;\n            }")],
 needs="-", breaks="square roots modulo a power of two",
 demo=H+r'''
#include "altruct/structure/math/modulo.h"
#include "altruct/algorithm/math/modulos.h"
using namespace altruct::math;
int main() { int bad = 0; for (int k = 1; k < 12; k++) { int m = 1 << k; for (int y = 1; y < m; y += 2) { std::set<int> w; for (int x = 0; x < m; x++) if ((long long)x * x % m == y) w.insert(x); auto v = sqrt_mod<int, int>(y, {{2, k}}); if (std::set<int>(v.begin(), v.end()) != w) bad++; } } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C33-jacobi-mod-five", prop="C33",
 edits=[(A+"math/modulos.h","        if ((e % 2) == 1 && (m % 8) == 5) j = -j;","        if (e == 1 && (m % 8) == 5) j = -j;")],
 needs="an argument with an odd power of two beyond the first, met while the modulus is 5 modulo 8",
 breaks="the Jacobi symbol has the wrong sign",
 demo=H+r'''
#include "altruct/structure/math/modulo.h"
#include "altruct/algorithm/math/modulos.h"
using namespace altruct::math;
int main() { int bad = 0; for (int p : {3, 5, 7, 11, 13, 29, 37, 53, 61}) for (int a = 0; a < 2 * p; a++) { int w = a % p == 0 ? 0 : -1; for (int x = 1; x < p; x++) if (x * x % p == a % p) w = 1; if (jacobi<int>(a, p) != w) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C37-sign-of-modulus-four", prop="C37",
 edits=[(A+"math/comb_mod_pp.h","    int pe = powT(p, e);\n    bool sign = !(p == 2 && e != 2);","    int pe = powT(p, e);\n    bool sign = (p != 2);")],
 needs="the modulus 4 and an n with an odd number of whole blocks of four at some level",
 breaks="the unit part of n! modulo 4 has the wrong sign",
 demo=H+r'''
#include "altruct/algorithm/math/comb_mod_pp.h"
using namespace altruct::math;
int main() { int bad = 0; for (int p : {2, 3, 5}) for (int e = 1; e < 4; e++) { int m = powT(p, e); auto t = factorials_mod_pp_skipped<int>(m, p, e); long long u = 1; for (int n = 1; n < 200; n++) { int x = n; while (x % p == 0) x /= p; u = u * x % m; if (factorial_mod_pp_reduced_2<int, int>(n, p, e, t.data()).first != u % m) bad++; } } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C37-table-bound", prop="C37",
 edits=[(A+"math/comb_mod_pp.h","    if (n <= p * e) return{ fact_table[castOf<int, I>(n)] % m, u };","    if (n < p * e + v) return{ fact_table[castOf<int, I>(n)] % m, u };")],
 needs="an n just above p*e that is not a multiple of p, with a table of the documented size", breaks="reads beyond the table",
 demo="int main(){return 0;}"),
dict(id="C36-nth-permutation-wide-rank", prop="C36",
 edits=[(A+"math/combinatorics.h","    while (i + 1 < d && f <= o / (i + 1)) f *= ++i;","    while (i + 1 < d && f < o / (i + 1)) f *= ++i;")],
 needs="a rank that is exactly a factorial (or less than twice one)",
 breaks="the most significant digit of the rank is lost",
 demo=H+r'''
#include "altruct/algorithm/math/combinatorics.h"
using namespace altruct::math;
int main() { int bad = 0; for (int n = 1; n < 8; n++) { std::vector<int> w(n); std::iota(w.begin(), w.end(), 0); int k = 0; do { std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); nth_permutation(v.begin(), v.end(), k++); if (v != w) bad++; } while (std::next_permutation(w.begin(), w.end())); } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C36-next-partition-repeat", prop="C36",
 edits=[(A+"math/combinatorics.h","        if (*it > 1 && (x - 1) / xm <= (l - 1)) {","        if (*it > 1 && x / xm <= l) {")],
 needs="-", breaks="partitions with a bounded number of parts",
 demo=H+r'''
#include "altruct/algorithm/math/combinatorics.h"
using namespace altruct::math;
static void all(int n, int k, int m, std::vector<int> c, std::set<std::vector<int>>& r) { if (k == 0) { if (n == 0) r.insert(c); return; } for (int a = std::min(n, m); a >= 0; a--) { auto d = c; d.push_back(a); all(n - a, k - 1, a, d, r); } }
int main() { int bad = 0; for (int n = 1; n < 12; n++) for (int k = 1; k < 7; k++) { std::set<std::vector<int>> w, r; all(n, k, n, {}, w); std::vector<int> v(k); v[0] = n; int c = 0; do { r.insert(v); c++; } while (c < 1000 && next_partition(v.begin(), v.end())); if (r != w || c != (int)w.size()) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C36-partitions-distinct-step", prop="C36",
 edits=[(A+"math/counting.h","        for (int k = 10, m = 4; m <= i; m += k, k += 6) {\n            q[i] += (k % 4 == 0) ? q[i - m] : -q[i - m];","        for (int k = 10, m = 4; m <= i; m += k, k += 6) {\n            q[i] += (m % 28 == 14) ? q[i - m] : -q[i - m];")],
 needs="a number of at least 52",
 breaks="the number of partitions into distinct parts is wrong from there on",
 demo=H+r'''
#include "altruct/algorithm/math/counting.h"
using namespace altruct::math;
int main() { int bad = 0, n = 120; std::vector<long long> d(n); d[0] = 1; for (int k = 1; k < n; k++) for (int i = n - 1; i >= k; i--) d[i] += d[i - k]; auto q = partitions_p_distinct_slow<long long>(n); for (int i = 0; i < n; i++) if (q[i] != d[i]) bad++; printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C42-fraction-compound-divide-negative", prop="C42",
 edits=[(M+"fraction.h","        if (q < e0) p = -p, q = -q;","        if (q < e0 && p > e0) p = -p, q = -q;")],
 needs="a quotient or construction in which both numerator and denominator are negative",
 breaks="the denominator stays negative, so equal fractions compare unequal and order is reversed",
 demo=H+r'''
#include "altruct/structure/math/fraction.h"
using namespace altruct::math;
int main() { int bad = 0; for (int a = -4; a < 5; a++) for (int b = -4; b < 5; b++) for (int c = -4; c < 5; c++) for (int d = -4; d < 5; d++) if (b && d && c) { fraction<int> x(a, b), y(c, d), z = x / y; if (z.q <= 0 || z.p * b * c != z.q * a * d) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C42-infinity-times", prop="C42",
 edits=[(M+"with_infinity.h","        if (v == zeroOf(v)) return with_infinity(v, 1);\n        return with_infinity(identityOf(v) / v);","        if (v * v == zeroOf(v)) return with_infinity(v, 1);\n        return with_infinity(identityOf(v) / v);")],
 needs="a coefficient type with nonzero elements whose square is zero or underflows", breaks="a tiny but invertible value is given an infinite inverse",
 demo=H+r'''
#include "altruct/structure/math/with_infinity.h"
using namespace altruct::math;
int main() { with_infinity<double> x(1e-200); auto y = x.inverse(); return y.is_inf || y.v != 1 / 1e-200; }
'''),
dict(id="C43-less-unnormalised", prop="C43",
 edits=[(M+"permutation.h","        if (m % g != 0) return permutation(); // root doesn't exist\n            if (G == g * 2 && m >= G) parity_len = l;","        if (m % g != 0) return permutation(); // root doesn't exist\n            if (G == g * 2 && m > G) parity_len = l;")],
 needs="an even root of requested parity whose only freedom is in a class with exactly as many cycles as are merged",
 breaks="the root is reported not to exist",
 demo=H+r'''
#include "altruct/structure/math/permutation.h"
using namespace altruct::math;
int main() { typedef permutation<int> P; int bad = 0; for (int n = 1; n < 6; n++) { std::vector<std::vector<int>> all; std::vector<int> w(n); std::iota(w.begin(), w.end(), 0); do all.push_back(w); while (std::next_permutation(w.begin(), w.end())); for (int T = 1; T < 5; T++) for (int par = 0; par < 2; par++) { std::set<std::vector<int>> has; for (auto& a : all) { int inv = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) inv += a[j] > a[i]; if (inv % 2 == par) has.insert(P(a).pow(T).to_line()); } for (auto& a : all) { auto r = P(a).root(T, par); if ((r.n == n) != (has.count(P(a).to_line()) > 0)) bad++; } } } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C43-root-offset", prop="C43",
 edits=[(M+"permutation.h","                int64_t o = (T / G) % l;","                int64_t o = (T / g) % l;")],
 needs="a root of requested parity for which the parity has to be corrected on cycles longer than one",
 breaks="the returned permutation is not a root",
 demo=H+r'''
#include "altruct/structure/math/permutation.h"
using namespace altruct::math;
int main() { typedef permutation<int> P; int bad = 0; for (int n = 1; n < 8; n++) { std::vector<int> w(n); std::iota(w.begin(), w.end(), 0); do { for (int T = 1; T < 7; T++) for (int par = -1; par < 2; par++) { P p(w), r = p.root(T, par); if (r.n == n && r.pow(T) != p) bad++; } } while (std::next_permutation(w.begin(), w.end())); } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C46-multiplicative-power-limit", prop="C46",
 edits=[(A+"math/divisor_sums.h","    int q[32]; T fq[32], gq[32];\n    for (int i = 0; i < m && pa[i] < n; i++) {\n        int m = 0;\n        for (int64_t qq = 1; qq < n; qq *= pa[i]) {","    int q[32]; T fq[32], gq[32];\n    for (int i = 0; i < m && pa[i] < n; i++) {\n        int m = 0;\n        for (int64_t qq = 1; qq < n && m < 10; qq *= pa[i]) {")],
 needs="a table long enough to hold 1024",
 breaks="values at multiples of 1024 miss the factor of the power of two",
 demo=H+r'''
#include "altruct/algorithm/math/divisor_sums.h"
using namespace altruct::math;
int main() { int bad = 0, n = 3000; std::vector<int> pa; for (int i = 2; i < n; i++) { bool p = true; for (int j = 2; j * j <= i; j++) p = p && i % j; if (p) pa.push_back(i); } auto one = [](int) { return 1LL; }; std::vector<long long> h(n), w(n); dirichlet_convolution_multiplicative(h, one, one, n, pa.data(), (int)pa.size()); for (int d = 1; d < n; d++) for (int i = d; i < n; i += d) w[i]++; for (int i = 1; i < n; i++) if (h[i] != w[i]) bad++; printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C50-inv-factorials-start", prop="C50",
 edits=[(A+"math/ranges.h","    for (size_t n = std::distance(begin, end); k > n; --k) {","    for (size_t n = std::distance(begin, end); k > n + 1; --k) {")],
 needs="inverse factorials computed down from a known factorial beyond the end of the range",
 breaks="the whole range is shifted by one factor",
 demo=H+r'''
#include "altruct/structure/math/modulo.h"
#include "altruct/algorithm/math/ranges.h"
using namespace altruct::math;
int main() { typedef modulo<int, 1009> T; int bad = 0; for (int n = 0; n < 12; n++) for (int k = 0; k < 16; k++) { T f(1); for (int i = 2; i <= k; i++) f *= i; auto v = make_inv_factorials<T>(n, f, k); T g(1); for (int i = 0; i < n; i++) { if (i) g *= i; if (v[i] * g != T(1)) bad++; } } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C50-invert-field-last", prop="C50",
 edits=[(A+"math/reduce.h","T reduce_mex(const C& c, T id = 0) {\n    return reduce(c, [](const T& r, const T& e) { return r == e ? r + 1 : r; }, id);","T reduce_mex(const C& c, T id = 0) {\n    return reduce(c, [](const T& r, const T& e) { return (r ^ e) == 0 || (e > r && e - r == 64) ? r + 1 : r; }, id);")],
 needs="a sorted set with an element exactly 64 above the running value",
 breaks="the minimal excluded value is too large",
 demo=H+r'''
#include "altruct/algorithm/math/reduce.h"
using namespace altruct::math;
int main() { int bad = 0; for (int a = 0; a < 200; a++) for (int b = a; b < 200; b++) { std::vector<int> v{a, b}; int w = a != 0 ? 0 : b == 1 ? 2 : 1; if (reduce_mex(v) != w) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C51-mulmod-fast-path", prop="C51",
 edits=[(A+"math/gmp_helpers.h","((x | y) >> 31 == 0)","((x | y) >> 32 == 0)")],
 needs="both factors between 2^31 and 2^32 with a product beyond 2^63",
 breaks="the product overflows before it is reduced",
 libs="/repo/_build/libaltruct_lib.a -lgmpxx -lgmp",
 demo=H+r'''
#include "altruct/structure/math/modulo.h"
#include "altruct/algorithm/math/gmp_helpers.h"
int main() { int bad = 0; for (int64_t x : {1LL, 65537LL, 2147483647LL, 2147483648LL, 3000000019LL, 4294967295LL, 4294967296LL, 1000000000000LL}) for (int64_t y : {2LL, 2147483649LL, 3999999979LL, 4294967295LL}) for (int64_t m : {7LL, 4294967311LL, 1000000000000000003LL}) { __int128 w = (__int128)x * y % m; if (z_mulmod(x, y, m) != (int64_t)w) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C51-cast-negative-multiword", prop="C51",
 edits=[(A+"math/gmp_helpers.h","    unsigned long res = (unsigned long)x.get_ui();\n    if (mpz_sgn(x.get_mpz_t()) < 0) res = -res;","    unsigned long res = (unsigned long)x.get_ui();\n    if (mpz_cmp_si(x.get_mpz_t(), 0) < 0 && mpz_size(x.get_mpz_t()) < 2) res = -res;")],
 needs="a negative number of more than 64 bits",
 breaks="its low word is that of the absolute value",
 libs="/repo/_build/libaltruct_lib.a -lgmpxx -lgmp",
 demo=H+r'''
#include "altruct/structure/math/modulo.h"
#include "altruct/algorithm/math/gmp_helpers.h"
int main() { int bad = 0; for (int s = -1; s <= 1; s += 2) for (int e = 0; e < 130; e += 5) { mpz b = 1; b <<= e; mpz x = (b + 12345) * s, m = 1; m <<= 64; mpz w = x % m; if (w < 0) w += m; if (mpz((unsigned long)altruct::math::castOf<unsigned long>(x)) != w) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
]
