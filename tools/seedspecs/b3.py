S="include/altruct/structure/container/"; X="experimental/include/altruct/"; A="include/altruct/algorithm/"; M="include/altruct/structure/math/"
H='#include <cstdio>\n#include <cstdlib>\n#include <utility>\n#include <vector>\n#include <functional>\n#include <string>\n#include <algorithm>\n#include <numeric>\n#include <set>\n#include <map>\n'
SEEDS=[
dict(id="C28-uniform-accepts-multiple", prop="C28",
 edits=[(A+"random/random.h","    } while (multiple != 0 && val >= multiple && ++iter < 20);","    } while (multiple != 0 && val > multiple && ++iter < 20);")],
 needs="a raw draw exactly equal to the rejection bound",
 breaks="the lowest value of the range is slightly more likely than the others",
 demo=H+r'''
#include "altruct/algorithm/random/random.h"
using namespace altruct::random;
int main() { int bad = 0; for (int w = 2; w < 256; w++) { std::vector<int> cnt(w); int rej = 0; for (int v = 0; v < 256; v++) { int n = 0; auto f = [&]() -> uint8_t { return n++ == 0 ? v : 0; }; uint8_t r = uniform_next<uint8_t>(f, 10, uint8_t(10 + w - 1)); if (n == 1 && 10 + w - 1 < 256) cnt[r - 10]++; } if (10 + w - 1 < 256) for (int c : cnt) if (c != cnt[0]) { bad++; break; } } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C38-max-convolution-in-place", prop="C38",
 edits=[(A+"math/convolutions.h","        sf += f[k], sg += g[k], r[k] = r_new;","        r[k] = r_new, sf += f[k], sg += g[k];")],
 needs="a max convolution whose result overwrites one of its inputs",
 breaks="the running sums are taken from the already overwritten input",
 demo=H+r'''
#include "altruct/structure/math/modulo.h"
#include "altruct/algorithm/math/convolutions.h"
using namespace altruct::math;
int main() { int bad = 0; for (int n = 1; n < 9; n++) { std::vector<int> f(n), g(n), w(n); for (int i = 0; i < n; i++) f[i] = i * 3 + 1, g[i] = i * i + 2; slow_max_convolution(w.data(), f.data(), g.data(), n); auto a = f, b = g; std::vector<int> r(n); max_convolution(r.data(), a.data(), b.data(), n); if (r != w) bad++; a = f, b = g; max_convolution(a.data(), a.data(), b.data(), n); if (a != w) bad++; a = f, b = g; max_convolution(b.data(), a.data(), b.data(), n); if (b != w) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C47-pell-bound-exclusive", prop="C47",
 edits=[(A+"math/pell.h","            if (x_max > 0 && t.a > x_max) break;\n            if (y_max > 0 && t.b > y_max) break;\n            if (count > 0 && (int)vs.size() >= count) break;\n            vs.push_back(t);","            if (x_max > 0 && t.a > x_max) break;\n            if (y_max > 0 && t.b >= y_max) break;\n            if (count > 0 && (int)vs.size() >= count) break;\n            vs.push_back(t);")],
 needs="a bound on y that is itself the y of a solution",
 breaks="the solution on the bound is not listed",
 demo=H+r'''
#include "altruct/structure/math/modulo.h"
#include "altruct/algorithm/math/pell.h"
using namespace altruct::math;
int main() { int bad = 0; typedef long long L; for (L D : {2LL, 3LL, 5LL, 6LL, 7LL, 10LL}) for (L Y = 1; Y < 300; Y++) { std::vector<std::pair<L, L>> w; for (L y = 1; y <= Y; y++) { L x2 = D * y * y + 1, x = 0; while (x * x < x2) x++; if (x * x == x2) w.push_back({x, y}); } auto v = pell1<L>(D, 1, 0, Y, 0); if (v.size() != w.size()) { bad++; continue; } for (size_t i = 0; i < w.size(); i++) if (v[i].a != w[i].first || v[i].b != w[i].second) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C48-generator-range-cut", prop="C48",
 edits=[(A+"math/triples.h","            int b_max = k / std::max(a, 1) + a;","            int b_max = k / std::max(a, 1) + std::min(a, 1);")],
 needs="an invariant k with a generator whose legs are close to each other",
 breaks="some generators, and with them whole families of triples, are missing",
 demo=H+r'''
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/vector2d.h"
#include "altruct/algorithm/math/modulos.h"
#include "altruct/algorithm/math/triples.h"
using namespace altruct::math;
int main() { int bad = 0; for (int k = 2; k < 120; k++) { std::set<std::vector<int>> w, r; const int n = 120; for (int a = 0; a <= n; a++) for (int b = a; b <= n; b++) for (int c = b; c <= n; c++) if (a * a + b * b + k == c * c && gcd(gcd(a, b), c) == 1) w.insert({a, b, c}); for (auto& t : generate_pythagorean_triples<int>(n, pythagorean_triples_generators<int>(k))) r.insert({std::min(t.a, t.b), std::max(t.a, t.b), t.c}); for (auto& t : w) if (!r.count(t)) { bad++; break; } } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C32-normalize-wide-value", prop="C32",
 edits=[(M+"modulo.h","    return static_cast<I>(v % UM);","    return static_cast<I>(static_cast<typename std::make_unsigned<I>::type>(v) % UM);")],
 needs="a 32-bit residue built from a 64-bit value outside the 32-bit range",
 breaks="the value is truncated before it is reduced",
 demo=H+r'''
#include "altruct/structure/math/modulo.h"
using namespace altruct::math;
int main() { int bad = 0; for (long long v : {5LL, 1000000007LL, 4294967296LL, 4294967301LL, -4294967301LL, 123456789012345LL, -99999999999LL}) { moduloX<int> x(v, 1000003); long long w = (v % 1000003 + 1000003) % 1000003; if (x.v != w) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C34-segmented-phi-square-overflow", prop="C34",
 edits=[("src/algorithm/math/primes.cpp","        if (_tmp[q] > 1) _phi[q] *= _tmp[q] - 1;","        if (_tmp[q] * _tmp[q] > e) _phi[q] *= _tmp[q] - 1;")],
 needs="a segment beyond 3.04e9 holding a number with a prime factor beyond 3.04e9",
 breaks="phi of such numbers misses the large factor",
 demo=H+r'''
#include "altruct/algorithm/math/primes.h"
using namespace altruct::math;
int main() { int bad = 0; std::vector<int> p; for (int i = 2; i < 100000; i++) { bool q = true; for (int d = 2; d * d <= i; d++) if (i % d == 0) { q = false; break; } if (q) p.push_back(i); }
  for (long long b : {1LL, 1000LL, 1000000LL, 2147483600LL, 4294967200LL, 9000000000LL}) { int n = 120; std::vector<int64_t> phi(n), tmp(n); int m = 0; while (m < (int)p.size() && (long long)p[m] * p[m] <= b + n) m++; segmented_phi(phi.data(), tmp.data(), b, b + n, p.data(), m); for (int i = 0; i < n; i++) { long long x = b + i, r = x; for (long long d = 2; d * d <= x; d++) if (x % d == 0) { r -= r / d; while (x % d == 0) x /= d; } if (x > 1) r -= r / x; if (r != phi[i]) bad++; } } printf("%d\n", bad); return bad != 0; }
''',),
dict(id="C26-compare-length-at-end", prop="C26",
 edits=[(A+"collections/collections.h","    if (max_len == 0) return 0;\n    if (b2 != e2) return -1;","    if (max_len == 0 && b1 != e1 && b2 != e2) return 0;\n    if (b2 != e2) return -1;")],
 needs="a length limit exactly equal to the length of the shorter sequence",
 breaks="sequences that agree on the compared prefix are reported different",
 demo=H+r'''
#include "altruct/algorithm/collections/collections.h"
using namespace altruct::collections;
int main() { int bad = 0; std::string a = "abcab", b = "abcabcx"; for (size_t m = 0; m < 10; m++) { int w = a.compare(0, std::min(m, a.size()), b, 0, std::min(m, b.size())); int r = compare(a.begin(), a.end(), b.begin(), b.end(), m); if ((w > 0) - (w < 0) != r) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C30-lcm-multiply-first", prop="C30",
 edits=[(A+"math/base.h","    return a * (b / gcd(a, b));","    return a * b / gcd(a, b);")],
 needs="arguments whose product leaves the type although their least common multiple fits",
 breaks="lcm overflows",
 demo=H+r'''
#include "altruct/algorithm/math/base.h"
using namespace altruct::math;
int main() { int bad = 0; for (int a : {6, 1000000, 46341, 1 << 20}) for (int b : {4, 1000000, 92682, 1 << 22}) { long long g = a, h = b; while (h) { long long t = g % h; g = h; h = t; } long long w = a / g * b; if (w < 2147483647 && lcm<int>(a, b) != w) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C10-delete-node-moved-edge", prop="C10",
 edits=[("include/altruct/structure/graph/graph.h","                if (l[i].v == u) {\n                    std::swap(l[i], l.back());\n                    l.pop_back();","                if (l[i].v == u) {\n                    std::swap(l[i], l.back());\n                    l.pop_back();\n                    if (i < (int)l.size() && l[i].v != u) i++;")],
 needs="an adjacency list whose last entry is an edge to the last node, and an earlier entry is an edge to the deleted node",
 breaks="the moved edge keeps the index of a node that no longer exists",
 demo=H+r'''
#include "altruct/structure/graph/graph.h"
using namespace altruct::graph;
int main() { int bad = 0; for (int n = 2; n < 6; n++) for (int mask = 0; mask < (1 << (n * 3)); mask++) { graph<edge> g(n); std::multiset<std::pair<int, int>> w; unsigned h = mask * 2654435761u; std::vector<std::pair<int, int>> es; for (int i = 0; i < 3 * n && i < 12; i++) { h = h * 1664525 + 1013904223; int u = (h >> 10) % n, v = (h >> 20) % n; if (mask >> i & 1) { g.add_edge(u, {v}); es.push_back({u, v}); } } int d = mask % n; g.delete_node(d); for (auto e : es) { if (e.first == d || e.second == d) continue; auto m = [&](int x) { return x == n - 1 ? d : x; }; w.insert({m(e.first), m(e.second)}); } std::multiset<std::pair<int, int>> r; for (int u = 0; u < g.size(); u++) for (auto& e : g[u]) r.insert({u, e.v}); if (r != w) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C49-repeating-decimal-long-preperiod", prop="C49",
 edits=[(A+"math/fractions.h","    return { digits, pos - positions[p] };","    return { digits, pos - std::min(positions[p], size_t(2)) };")],
 needs="a fraction whose expansion has at least three digits before the period starts",
 breaks="the reported period is too long",
 demo=H+r'''
#include "altruct/structure/math/modulo.h"
#include "altruct/algorithm/math/fractions.h"
using namespace altruct::math;
int main() { int bad = 0; for (int q = 2; q < 120; q++) { auto r = repeating_decimal<int>(10, 1, q); int t = q, a = 0, b = 0; while (t % 2 == 0) t /= 2, a++; while (t % 5 == 0) t /= 5, b++; int pre = std::max(a, b), per = 0; if (t > 1) { int x = 1; do { x = x * 10 % t; per++; } while (x != 1); } if ((int)r.second != per || (int)r.first.size() != pre + per) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C40-reversion-last-step", prop="C40",
 edits=[(M+"series.h","        for (int k = 2; k < this->N(); k *= 2) {\n            int m = std::min(this->N(), k * 2);\n            auto rk = serx(r.p, m);","        for (int k = 2; k < this->N(); k *= 2) {\n            int m = std::min(this->N() & ~1, k * 2);\n            auto rk = serx(r.p, m);")],
 needs="an odd number of terms",
 breaks="the last coefficient of the compositional inverse is missing",
 demo=H+r'''
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/polynom.h"
#include "altruct/structure/math/series.h"
using namespace altruct::math;
int main() { int bad = 0; typedef modulo<int, 1000000007> Z; for (int n = 2; n < 20; n++) { seriesX<Z> s(polynom<Z>{0, 2, 3, 1, 5, 0, 7, 4}, n); auto r = s.reversion(); auto c = s.composition(r); for (int i = 0; i < n; i++) if (c[i] != Z(i == 1)) { bad++; break; } } printf("%d\n", bad); return bad != 0; }
'''),
]
