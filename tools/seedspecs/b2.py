S="include/altruct/structure/container/"; X="experimental/include/altruct/"; A="include/altruct/algorithm/"; M="include/altruct/structure/math/"
H='#include <cstdio>\n#include <cstdlib>\n#include <utility>\n#include <vector>\n#include <functional>\n#include <string>\n#include <algorithm>\n#include <numeric>\n'
SEEDS=[
dict(id="C39-karatsuba-stale-middle", prop="C39",
 edits=[(M+"polynom.h","            _zero(pr, l2 + k - 1, lr, ZERO_COEFF);\n            _add_to(pr + k, MM.data(), lr - k);","            _zero(pr, l1, lr, ZERO_COEFF);\n            _add_to(pr + k, MM.data(), lr - k);")],
 needs="a product of a long and a much shorter polynomial (the short one less than half as long) written into a result that already holds other coefficients",
 breaks="a few middle coefficients of the product keep parts of what the result held before",
 demo=H+r'''
#include "altruct/structure/math/polynom.h"
#include "altruct/structure/math/modulo.h"
using namespace altruct::math;
int main() { int bad = 0; typedef modulo<int, 1000000007> Z; typedef polynom<Z> P;
  for (int n = 50; n < 200; n += 7) for (int m = 1; m < 100; m += 3) { std::vector<Z> a(n), b(m); for (int i = 0; i < n; i++) a[i] = i * i + 3; for (int i = 0; i < m; i++) b[i] = i * 5 + 1;
    std::vector<Z> w(n + m - 1, Z(0)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) w[i + j] += a[i] * b[j];
    P p(a.begin(), a.end()), q(b.begin(), b.end()), r(std::vector<Z>(n + m + 5, Z(9))); P::mul(r, p, q); for (int i = 0; i < n + m - 1; i++) if (r.at(i) != w[i]) { bad++; break; }
    P pp = p; pp *= q; for (int i = 0; i < n + m - 1; i++) if (pp.at(i) != w[i]) { bad++; break; } }
  printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C12-dinic-level-forward-only", prop="C12",
 edits=[(X+"algorithm/graph/dinic_flow.h","if (!level[v] && (cap[u][v] > flow[u][v] || flow[v][u] > 0)) {","if (!level[v] && (cap[u][v] > flow[u][v] || (cap[v][u] > 0 && flow[v][u] >= cap[v][u]))) {")],
 needs="a network whose maximum flow needs flow along an edge to be cancelled while that edge is only partly used",
 breaks="calc_max_flow stops early and returns less than the maximum",
 demo=H+r'''
#include "altruct/algorithm/graph/dinic_flow.h"
using namespace altruct::graph;
static int cut(const std::vector<std::vector<int>>& c) { int n = (int)c.size(), best = 1 << 30; for (int s = 0; s < (1 << n); s++) { if (!(s & 1) || (s >> (n - 1) & 1)) continue; int t = 0; for (int u = 0; u < n; u++) if (s >> u & 1) for (int v = 0; v < n; v++) if (!(s >> v & 1)) t += c[u][v]; best = std::min(best, t); } return best; }
int main() { int bad = 0; unsigned r = 1; for (int it = 0; it < 20000; it++) { int n = 6 + it % 2; std::vector<std::vector<int>> c(n, std::vector<int>(n)); for (auto& x : c) for (auto& y : x) { r = r * 1664525 + 1013904223; int k = (r >> 16) % 7; y = k > 3 ? k - 2 : 0; } for (int i = 0; i < n; i++) c[i][i] = c[i][0] = c[n - 1][i] = 0;
  dinic_flow<int> d(c); if (d.calc_max_flow(0, n - 1) != cut(c)) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C14-hld-kth-parent-chain-top", prop="C14",
 edits=[(X+"algorithm/graph/heavy_light_decomposition.h","            if (lca.depth(p) < d) {","            if (lca.depth(p) <= d) {")],
 needs="an ancestor that is exactly the node a chain hangs from",
 breaks="parent(u, k) returns a node of another branch",
 demo=H+r'''
#include "altruct/algorithm/graph/heavy_light_decomposition.h"
using namespace altruct::graph;
int main() { int bad = 0; unsigned r = 5; for (int it = 0; it < 300; it++) { int n = 2 + it % 12; graph<edge> g(n); std::vector<int> par(n, -1); for (int i = 1; i < n; i++) { r = r * 1664525 + 1013904223; par[i] = (r >> 16) % i; g.add_edge(i, par[i]); g.add_edge(par[i], i); }
  heavy_light_decomposition_ex h(g); for (int u = 0; u < n; u++) { int w = u; for (int k = 0; w != -1; k++, w = par[w]) if (h.parent(u, k) != w) bad++; } } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C35-miller-rabin-bound-included", prop="C35",
 edits=[(A+"math/factorization.h","    if (n < 9080191) return miller_rabin(n, bases2);","    if (n <= 9080191) return miller_rabin(n, bases2);")],
 needs="the single input 9080191",
 breaks="the composite 9080191 = 2131 * 4261 is reported prime and is not factored",
 demo=H+r'''
#include "altruct/algorithm/math/factorization.h"
using namespace altruct::math;
int main() { int bad = 0; for (long long n = 9080001; n < 9080401; n += 2) { bool p = true; for (long long d = 3; d * d <= n; d += 2) if (n % d == 0) { p = false; break; } if (miller_rabin<long long>(n) != p) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C43-pow-negative-beyond-cycle", prop="C43",
 edits=[(M+"permutation.h","j = (j + T % L + L) % L) {","j = (j + (T < 0 ? T % L + L : T)) % L) {")],
 needs="a positive exponent so large that adding a cycle position overflows 64 bits",
 breaks="pow of a huge exponent indexes a cycle with a negative position",
 demo=H+r'''
#include "altruct/structure/math/permutation.h"
using namespace altruct::math;
int main() { int bad = 0; typedef permutation<int> P; for (int n = 2; n < 9; n++) { std::vector<int> l(n); for (int i = 0; i < n; i++) l[i] = (i + 1) % n; P p(l); for (long long T : {0LL, 1LL, -5LL, 9223372036854775807LL, 9223372036854775805LL, 9223372036854775800LL}) { long long r = ((T % n) + n) % n; auto q = p.pow(T); auto z = P(n); for (int i = 0; i < r; i++) z = z * p; if (q.to_line() != z.to_line()) bad++; } } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C21-refill-half-buffer", prop="C21",
 edits=[("include/altruct/io/reader.h","        while (available < capacity) {\n            size_t len = in.read(end, capacity - available);","        while (available < capacity - capacity / 4) {\n            size_t len = in.read(end, capacity - available);")],
 needs="a source that delivers its bytes in short pieces and a request for most of the buffer",
 breaks="data() and read() report that bytes are missing although the source still has them",
 demo=H+r'''
#include "altruct/io/reader.h"
using namespace altruct::io;
struct src : reader { std::string s; size_t p = 0, c; src(const std::string& s, size_t c) : s(s), c(c) {} operator bool() const override { return true; } int read_char() override { return p < s.size() ? (unsigned char)s[p++] : -1; } size_t read(char* b, size_t n) override { n = std::min(n, std::min(c, s.size() - p)); std::copy(s.begin() + p, s.begin() + p + n, b); p += n; return n; } };
int main() { int bad = 0; std::string s; for (int i = 0; i < 500; i++) s += char('a' + i % 26); for (size_t c = 1; c <= 20; c++) for (size_t b = 1; b <= 40; b++) for (size_t q = 1; q <= b; q++) { src a(s, c); buffered_reader r(a, b); std::string o(s.size() + 50, 0); size_t t = 0; while (t < s.size()) { size_t k = r.read(&o[t], std::min(q, s.size() - t)); if (!k) break; t += k; if (!r) { bad++; break; } } o.resize(t); if (o != s) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C33-crt-first-product-overflow", prop="C33",
 edits=[(A+"math/modulos.h","    T t1 = modulo_mul(a1, ni2, n1);","    T t1 = modT<T>(a1 * ni2, n1);")],
 needs="a first modulus above 2^32 (the product of a remainder and an inverse must leave the 64-bit range)",
 breaks="the combined remainder is wrong",
 demo=H+r'''
#include "altruct/algorithm/math/modulos.h"
using namespace altruct::math;
int main() { int bad = 0; typedef long long L; L x = 123456789012345678LL; for (L n1 : {7LL, 1000003LL, 4294967311LL, 100000000003LL, 100000000019LL}) for (L n2 : {5LL, 77LL, 1000003LL, 9999991LL}) { if (n1 == n2) continue; L a = 0, n = 0; chinese_remainder<L>(&a, &n, x % n1, n1, x % n2, n2); if (n % n1 || n % n2 || a < 0 || a >= n || a % n1 != x % n1 || a % n2 != x % n2) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C41-gauss-eliminate-after-skip", prop="C41",
 edits=[(M+"matrix.h","            for (i = rank; i < n; i++) {\n                T p = mat.a[i][j]; if (p == e0) continue;","            for (i = j + 1; i < n; i++) {\n                T p = mat.a[i][j]; if (p == e0) continue;")],
 needs="a singular matrix with a column that has no pivot before a later pivot column",
 breaks="the rank of such a matrix is overestimated",
 demo=H+r'''
#include "altruct/structure/math/matrix.h"
#include "altruct/structure/math/modulo.h"
using namespace altruct::math;
int main() { int bad = 0; typedef modulo<int, 3> Z; for (int c = 0; c < 19683; c++) { matrix<Z> m(3, 3); int t = c; int v[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { v[i][j] = t % 3; m[i][j] = Z(t % 3); t /= 3; }
  int img = 0; bool s[27] = {}; for (int x = 0; x < 27; x++) { int a = x % 3, b = x / 3 % 3, d = x / 9, y = 0; for (int i = 0; i < 3; i++) y = y * 3 + (v[i][0] * a + v[i][1] * b + v[i][2] * d) % 3; if (!s[y]) s[y] = true, img++; } int r = img == 1 ? 0 : img == 3 ? 1 : img == 9 ? 2 : 3; if (m.rank() != r) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C17-shared-power-growth", prop="C17",
 edits=[(A+"hash/polynomial_hash.h","        for (size_t i = i0; i < sz; i++) {\n            w[i] = mul(w[i - 1], b, m);","        for (size_t i = std::max(i0, size_t(1)); i + 1 < sz || i < i0 + 2; i++) {\n            if (i < sz) w[i] = mul(w[i - 1], b, m);")],
 needs="a power table grown by one step at a time up to a boundary, then used at its last power",
 breaks="the last power of a grown table is zero, so hashes of longer strings ignore a position",
 demo=H+r'''
#include "altruct/algorithm/hash/polynomial_hash.h"
using namespace altruct::hash;
typedef polynomial_hash<1, int32_t> P;
int main() { int bad = 0; for (int n = 1; n < 80; n++) { P a, b; a.add(7, n); b.add(7, n - 1); P c = b << 1; if (!(a == c)) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C06-reset-max-keeps-counts", prop="C06",
 edits=[(S+"sqrt_map.h","        cnt_hi.assign(max_key / max_lo_key + 1, 0);","        cnt_hi.resize(max_key / max_lo_key + 1, 0);")],
 needs="a second reset_max on a map that already holds high keys",
 breaks="keys that were dropped are still reported present",
 demo=H+r'''
#include "altruct/structure/container/sqrt_map.h"
using namespace altruct::container;
int main() { int bad = 0; sqrt_map<int, int> m(10, 100); for (int k : {20, 33, 50, 100}) m[k] = k; m.reset_max(200); for (int k = 1; k <= 9; k++) if (200 / k > 10 && m.count(200 / k)) bad++; printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C36-stirling-row-odd-merge", prop="C36",
 edits=[(A+"math/counting.h","        for (int i = 0; i + l < n; i += l * 2) {\n            vp[i] *= vp[i + l];\n            vp[i + l] = {};","        for (int i = 0; i + l * 2 - 1 < n || (i == 0 && l < n); i += l * 2) {\n            vp[i] *= vp[i + l];\n            vp[i + l] = {};")],
 needs="a row number whose binary form has a zero between ones (11, 13, 19, ...)",
 breaks="factors of the falling factorial are lost, so the row has the wrong length and values",
 demo=H+r'''
#include "altruct/algorithm/math/counting.h"
#include "altruct/structure/math/modulo.h"
using namespace altruct::math;
int main() { int bad = 0; typedef modulo<int, 1000000007> Z; std::vector<Z> w = {Z(1)}; for (int n = 0; n < 40; n++) { auto r = stirling_s1_all_k_for_n<Z>(n); for (int i = 0; i <= n; i++) if (i >= (int)r.size() || r[i] != w[i]) { bad++; break; } std::vector<Z> x(n + 2, Z(0)); for (int i = 0; i <= n; i++) { x[i + 1] += w[i]; x[i] -= w[i] * Z(n); } w = x; } printf("%d\n", bad); return bad != 0; }
'''),
]
