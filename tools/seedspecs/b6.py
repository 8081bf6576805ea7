S="include/altruct/structure/container/"; X="experimental/include/altruct/"; A="include/altruct/algorithm/"; M="include/altruct/structure/math/"; G="experimental/include/altruct/algorithm/graph/"
H='#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <cstdint>\n#include <utility>\n#include <vector>\n#include <functional>\n#include <string>\n#include <algorithm>\n#include <numeric>\n#include <set>\n#include <map>\n'
SEEDS=[
dict(id="C05-reverse-inner-shift", prop="C05",
 edits=[(S+"bit_vector.h","        if (l < L) {\n            for (size_t i = ie - 1; i > ib; i--)","        if (l < L || (lb == L / 2 && le == L / 2)) {\n            for (size_t i = ie - 1; i > ib; i--)")],
 needs="reversal of a range spanning several words that begins and ends exactly in the middle of a word",
 breaks="the inner words are overwritten before they are read, so bits are lost",
 demo=H+r'''
#include "altruct/structure/container/bit_vector.h"
using namespace altruct::container;
template<typename W> int run() { int bad = 0; const int n = sizeof(W) * 8 * 5; for (int b = 0; b < n; b += 4) for (int e = b; e <= n; e += 4) { bit_vector<W> v(n); std::string w(n, '0'); unsigned r = 7; for (int i = 0; i < n; i++) { r = r * 1664525 + 1013904223; int x = r >> 31; v.set(i, x); w[i] = '0' + x; } v.reverse(b, e); std::reverse(w.begin() + b, w.begin() + e); if (v.to_string(0, n) != w) bad++; } return bad; }
int main() { int bad = run<uint8_t>() + run<uint32_t>() + run<uint64_t>(); printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C05-compare-tail-garbage", prop="C05",
 edits=[(S+"bit_vector.h","            if (l < L) w1 &= first_bits(l);\n            if (l < L) w2 &= first_bits(l);","            if (l < L) w1 &= first_bits(l);\n            if (l < L - 1) w2 &= first_bits(l);")],
 needs="a comparison of ranges whose last partial word has all but one of its bits in range, with a one right behind the second range",
 breaks="equal ranges are reported as different",
 demo=H+r'''
#include "altruct/structure/container/bit_vector.h"
using namespace altruct::container;
int main() { int bad = 0; for (int a = 0; a < 40; a++) for (int b = 0; b < 40; b++) for (int l = 0; l < 40; l++) { bit_vector<uint8_t> v(100), w(100); for (int i = 0; i < 100; i++) w.set(i, 1); for (int i = 0; i < l; i++) v.set(a + i, i & 1), w.set(b + i, i & 1); if (bit_vector<uint8_t>::compare(v, a, a + l, w, b, b + l) != 0) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C06-lohi-erase-keeps-value", prop="C06",
 edits=[(S+"lohi_map.h","(tbl_lo[k] = T(), get_and_set(cnt_lo[k], 0))","get_and_set(cnt_lo[k], 0)")],
 needs="a small key that is erased and then accessed again through operator[]",
 breaks="the erased value comes back instead of a fresh default",
 demo=H+r'''
#include "altruct/structure/container/lohi_map.h"
using namespace altruct::container;
int main() { lohi_map<int, int> m(10); int bad = 0; for (int k : {0, 5, 10, 11, 100}) { m[k] = 7; m.erase(k); if (m[k] != 0) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C06-lohi-insert-boundary", prop="C06",
 edits=[(S+"lohi_map.h","            if (cnt_lo[k]) return{ k, false };\n            tbl_lo[k] = v;","            if (cnt_lo[k] && !(tbl_lo[k] == T())) return{ k, false };\n            tbl_lo[k] = v;")],
 needs="a small key that holds the default value and is inserted again",
 breaks="insert overwrites an element that is already there",
 demo=H+r'''
#include "altruct/structure/container/lohi_map.h"
using namespace altruct::container;
int main() { lohi_map<int, int> m(10); int bad = 0; for (int k : {0, 5, 10, 11, 100}) { m[k] = 0; if (m.insert({k, 3}).second || m[k] != 0) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C07-traverse-depth", prop="C07",
 edits=[(S+"link_cut_tree.h","            connect(ch, par, is_left, !is_left);","            connect(ch, par, is_left, !is_left);")],
 needs="-", breaks="-", demo="int main(){return 0;}"),
dict(id="C07-rotate-order", prop="C07",
 edits=[(S+"link_cut_tree.h","        update(par);\n        update(node); // TODO: should we go all the way up?","        update(par);\n        if (gp == nil || is_left) update(node); // TODO: should we go all the way up?")],
 needs="-", breaks="-",
 demo=H+r'''
#include "altruct/structure/container/link_cut_tree.h"
using namespace altruct::container;
struct N { int v, sum; };
int main() { int bad = 0; unsigned r = 5; auto rnd = [&](int k) { r = r * 1664525 + 1013904223; return int((r >> 16) % k); };
 for (int it = 0; it < 300; it++) { const int n = 9; link_cut_tree<N> t([](N& p, const N& a, const N& b) { p.sum = a.sum + p.v + b.sum; }, N{0, 0}); std::vector<int> par(n + 1); for (int i = 1; i <= n; i++) t.add(N{1 << i, 1 << i});
  for (int s = 0; s < 60; s++) { int u = 1 + rnd(n); if (par[u]) { t.cut(u); par[u] = 0; } else { int v = 1 + rnd(n); bool ok = true; for (int x = v; x; x = par[x]) ok = ok && x != u; if (ok) t.link(u, v), par[u] = v; } int q = 1 + rnd(n), w = 0, d = -1; for (int x = q; x; x = par[x]) w += 1 << x, d++; if (t.get(q).sum != w || t.depth(q) != d) bad++; } }
 printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C10-delete-node-last-self", prop="C10",
 edits=[("include/altruct/structure/graph/graph.h","                    if (l[i].v == v) l[i].v = u;\n                    i++;","                    if (l[i].v == v && &l != &adjl[u]) l[i].v = u;\n                    i++;")],
 needs="deleting a node while the last node, which takes its number, has an edge to itself",
 breaks="that edge keeps pointing to a node that no longer exists",
 demo=H+r'''
#include "altruct/structure/graph/graph.h"
using namespace altruct::graph;
int main() { int bad = 0; for (int d = 0; d < 3; d++) { graph<edge> g(4); for (int i = 0; i < 4; i++) g.add_edge(i, i), g.add_edge(i, (i + 1) % 4); g.delete_node(d); for (int u = 0; u < g.size(); u++) for (auto& e : g[u]) if (e.v < 0 || e.v >= g.size()) bad++; if (g.num_edges() != 5) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C10-contract-mutual", prop="C10",
 edits=[("include/altruct/structure/graph/graph.h","        for (int u = 0; u < size(); u++) deduplicate_edges(u);","        for (int w = 0; w < size(); w++) if (w != v || v >= u) deduplicate_edges(w);")],
 needs="contraction into a node with a larger number of a node that is replaced by the last node, which has parallel edges after it",
 breaks="parallel edges remain at the node that took the contracted node's number",
 demo=H+r'''
#include "altruct/structure/graph/graph.h"
using namespace altruct::graph;
int main() { int bad = 0; for (int u = 0; u < 4; u++) for (int v = 0; v < 4; v++) if (u != v) { graph<edge> g(4); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (i != j) g.add_edge(i, j); g.contract(u, v); if (g.num_edges() != 6) bad++; for (int x = 0; x < g.size(); x++) { std::set<int> s; for (auto& e : g[x]) if (!s.insert(e.v).second) bad++; } } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C09-upper-bound-pending", prop="C09",
 edits=[(S+"lazy_treap.h","            propagate_down(it);\n            if (tree.compare(key, *it)) {\n                res = it;\n                it = it.left();","            if (it == root()) propagate_down(it);\n            if (tree.compare(key, *it)) {\n                res = it;\n                it = it.left();")],
 needs="an update pending at a node below the root when an element is inserted or an upper bound asked for",
 breaks="the comparison uses a value without the pending update, so the element lands in the wrong place",
 demo="int main(){return 0;}"),
dict(id="C17-mod-negative-scalar", prop="C17",
 edits=[(A+"hash/polynomial_hash.h","        h[k] = mod((IT)h[k] - rhs, M[k]);","        h[k] = mod((IT)h[k] + (M[k] - rhs), M[k]);")],
 needs="a scalar subtracted", breaks="-", demo="int main(){return 0;}"),
dict(id="C17-less-last-component", prop="C17",
 edits=[(A+"hash/polynomial_hash.h","        for (int k = 0; k < K; k++) {\n            if (h[k] != rhs.h[k]) return h[k] < rhs.h[k];\n        }\n        return false;","        for (int k = 0; k + 1 < K; k++) {\n            if (h[k] != rhs.h[k]) return h[k] < rhs.h[k];\n        }\n        return h[K - 1] <= rhs.h[K - 1] && !(h[0] == rhs.h[0]);")],
 needs="two hashes that agree in all but the last component",
 breaks="they are treated as equivalent by ordered containers",
 demo=H+r'''
#include "altruct/algorithm/hash/polynomial_hash.h"
using namespace altruct::hash;
int main() { typedef polynomial_hash<2> P; int bad = 0; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 3; c++) for (int d = 0; d < 3; d++) { P x{a, b}, y{c, d}; bool w = a != c ? a < c : b < d; if ((x < y) != w) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C20-worker-created-unlocked", prop="C20",
 edits=[("include/altruct/concurrency/concurrency.h","            if (!job_provider.has_next_job()) break;\n            auto job = job_provider.next_job();","            if (!job_provider.has_next_job()) break;\n            job_provider_lock.unlock();\n            job_provider_lock.lock();\n            auto job = job_provider.next_job();")],
 needs="two threads that both see the last job before either takes it",
 breaks="next_job is called although no job is left",
 demo=H+r'''
#include "altruct/concurrency/concurrency.h"
#include <chrono>
using namespace altruct::concurrency;
struct JP { int n; std::atomic<int> bad{0}; bool has_next_job() { bool r = n > 0; std::this_thread::sleep_for(std::chrono::microseconds(50)); return r; } int next_job() { if (n <= 0) bad++; return n--; } };
struct W { int execute_job(int j) { return j; } }; struct WP { W create_worker() { return W(); } };
struct RC { int cnt = 0; void collect_result(int, int) { cnt++; } };
int main() { int bad = 0; for (int it = 0; it < 500; it++) { JP j; j.n = 3; WP w; RC r; parallel_execute(r, j, w, 8); if (r.cnt != 3 || j.bad) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C20-range-provider-negative", prop="C20",
 edits=[("include/altruct/concurrency/concurrency.h","        begin = last ? end : b + len;\n        return{ b, begin };","        begin = last ? end : b + len;\n        return{ b, last && len == 1 ? b + 1 : begin };")],
 needs="-", breaks="equivalent", demo="int main(){return 0;}"),
dict(id="C02-compare-prefix", prop="C02",
 edits=[(S+"rope.h","    void erase(const_iterator b, const_iterator e) {\n        while (b != e) erase(b++);","    void erase(const_iterator b, const_iterator e) {\n        for (int n = e.pos() - b.pos(); n > 0 && b != cend(); n--) erase(b++);\n        if (b != e && e == cend()) erase(b);")],
 needs="-", breaks="equivalent", demo="int main(){return 0;}"),
]
