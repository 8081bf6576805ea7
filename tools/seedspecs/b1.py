S="include/altruct/structure/container/"; X="experimental/include/altruct/"
H='#include <cstdio>\n#include <cstdlib>\n#include <vector>\n#include <functional>\n#include <string>\n#include <algorithm>\n'
SEEDS=[
dict(id="C01-swap-descendant-sizes", prop="C01",
 edits=[(S+"binary_search_tree.h","        propagate_size(ptr, des, des->count() - ptr->count());","        propagate_size(ptr->parent, des, des->count() - ptr->count());")],
 needs="COUNT mode; erase all copies of an element that has two children and whose multiplicity differs from its in-order successor's, then ask for a position or count",
 breaks="subtree sizes on the path between the two swapped nodes are no longer those of the stored multiset, so count/k-th/rank answers are wrong",
 demo=H+r'''
#include "altruct/structure/container/binary_search_tree.h"
using namespace altruct::container;
int main() { int bad = 0;
  for (int a = 1; a <= 3; a++) for (int b = 1; b <= 3; b++) for (int c = 1; c <= 3; c++) {
    binary_search_tree<int, int, bst_duplicate_handling::COUNT> t; t.insert(5, a); t.insert(2, b); t.insert(9, c); t.insert(7, 2); t.insert(6, b); t.erase(5);
    std::vector<int> w; for (int i = 0; i < b; i++) w.push_back(2); for (int i = 0; i < b; i++) w.push_back(6); for (int i = 0; i < 2; i++) w.push_back(7); for (int i = 0; i < c; i++) w.push_back(9);
    if (t.size() != (int)w.size()) bad++; for (int k = 0; k < (int)w.size(); k++) { auto it = t.find_kth(k); if (it == t.end() || *it != w[k]) bad++; }
    for (int k = 0; k < 11; k++) { int e = 0; for (int x : w) e += x == k; if (t.count(k) != e) bad++; e = 0; for (int x : w) e += x < k; if (t.count_less(k) != e) bad++; } }
  printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C03-rebuild-last-parent", prop="C03",
 edits=[(S+"binary_heap.h","        for (size_t index = v.size() / 2; index > 0; index--) {","        for (size_t index = v.size() / 4 + (v.size() + 1) / 4; index > 0; index--) {")],
 needs="a heap built from an array whose size leaves the last parent out (size 2, 6, 10, ...) with that parent's child smaller than it",
 breaks="the heap is not a heap after construction or rebuild, so front is not minimal and sorting is wrong",
 demo=H+r'''
#include "altruct/structure/container/binary_heap.h"
using namespace altruct::container;
int main() { int bad = 0; for (int n = 1; n < 40; n++) { std::vector<int> a(n); for (int i = 0; i < n; i++) a[i] = n - i; binary_heap<int> h(a.begin(), a.end()); for (int i = 1; i <= n; i++) { if (h.front() != i) bad++; h.pop_front(); } }
  printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C04-lazy-right-fold-order", prop="C04",
 edits=[(S+"lazy_segment_tree.h","            if (e & 1) f_up(tr, v[i + --e], tr);","            if (e & 1) f_up(tr, tr, v[i + --e]);")],
 needs="a combination function that is not commutative and a range whose right side is assembled from at least two segments",
 breaks="range queries fold the right part in the wrong order",
 demo=H+r'''
#include "altruct/structure/container/lazy_segment_tree.h"
using namespace altruct::container;
int main() { int bad = 0; typedef std::string T; std::string s = "abcdefgh"; std::vector<T> v; for (char c : s) v.push_back(T(1, c));
  lazy_segment_tree<T> t(v.begin(), v.end(), [](T& p, const T& l, const T& r) { p = l + r; }, [](T&, T&, T&) {}, T());
  for (int b = 0; b <= 8; b++) for (int e = b; e <= 8; e++) { if (b == e) continue; if (t.get(b, e) != s.substr(b, e - b)) bad++; }
  printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C05-overlapping-apply-direction", prop="C05",
 edits=[(S+"bit_vector.h","        return v1.apply(begin1, begin1 + len, op2, begin2 < begin1);","        return v1.apply(begin1, begin1 + len, op2, begin2 + L < begin1);")],
 needs="an in-place range operation that moves bits up by at most one word within the same vector, over a range long enough to have whole words in the middle",
 breaks="already overwritten words are used as the source",
 demo=H+r'''
#include "altruct/structure/container/bit_vector.h"
using namespace altruct::container;
int main() { int bad = 0; typedef bit_vector<uint8_t> B; for (int n = 8; n < 60; n++) for (int d = 0; d <= 12; d++) { B b(n + 20); std::vector<int> w(n + 20); for (int i = 0; i < n + 20; i++) { w[i] = (i * i / 3 + i / 5) & 1; b.set(i, w[i]); }
  B::apply(b, d, b, 0, n, B::op_set); std::vector<int> o = w; for (int i = 0; i < n; i++) w[d + i] = o[i]; for (int i = 0; i < n + 20; i++) if (b.bit_at(i) != w[i]) { bad++; break; } }
  printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C07-count-moved-to-child", prop="C07",
 edits=[("include/altruct/structure/graph/disjoint_set.h","""        if (va[x].rank < va[y].rank) {
            va[x].parent = y, va[y].count += va[x].count;
        }
        else {
            va[y].parent = x, va[x].count += va[y].count;
        }
        if (va[x].rank == va[y].rank) {
            va[x].rank++;
        }""","""        if (va[x].rank == va[y].rank) {
            va[x].rank++;
        }
        if (va[x].rank < va[y].rank) {
            va[x].parent = y;
            va[y].count += va[x].count;
        }
        else {
            va[y].parent = x;
            va[x].count += std::max(va[y].count, va[y].rank);
        }""")],
 needs="uniting a singleton-count tree whose rank exceeds its recorded count, reached by setting counts through add_count",
 breaks="the component size is wrong",
 demo=H+r'''
#include "altruct/structure/graph/disjoint_set.h"
using namespace altruct::graph;
int main() { int bad = 0; for (int k = 0; k < 3; k++) { disjoint_set s(8); s.unite(0, 1); s.unite(2, 3); s.unite(0, 2); s.add_count(0, (size_t)-4); /* weight now 0 */ s.unite(4, 5); s.unite(6, 7); s.unite(4, 6); s.unite(k ? 4 : 0, k ? 0 : 4); if (s.count(0) != 4) bad++; if (s.count(7) != 4) bad++; }
  printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C12-hungarian-slack-source", prop="C12",
 edits=[(X+"algorithm/graph/hungarian.h","""            if (s < slack[y]) {
                slack[y] = s;
                slackx[y] = x;
            }""","""            if (s < slack[y]) {
                slack[y] = s;
                if (s != 0 || !T[y]) slackx[y] = x;
                if (yx[y] == -1 && s > 0 && prevx >= 0 && S[prevx] == 0) slackx[y] = prevx;
            }""")],
 needs="x", breaks="x", demo="int main(){return 0;}"),
dict(id="C13-scc-inactive-lowlink", prop="C13",
 edits=[(X+"algorithm/graph/tarjan_scc.h","""                        act[v] = -1;
                        scc.push_back(v);""","""                        if (v != u || sta.empty()) act[v] = -1;
                        scc.push_back(v);""")],
 needs="a cross edge into an already completed component that was entered before the current one, inside a deeper dfs",
 breaks="edges into completed components lower the low-link, so components are merged or lost",
 demo=H+r'''
#include "altruct/algorithm/graph/tarjan_scc.h"
using namespace altruct::graph;
int main() { int bad = 0; const int n = 4; for (int m = 0; m < 1 << (n * n); m++) { graph<edge> g(n); bool r[n][n]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { r[i][j] = i == j; if (m >> (i * n + j) & 1) { if (i == j) goto next; g.add_edge(i, { j }); r[i][j] = true; } }
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] |= r[i][k] && r[k][j];
  { auto c = tarjan_scc(g); std::vector<int> id(n, -1); for (size_t k = 0; k < c.size(); k++) for (int u : c[k]) id[u] = k; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((id[i] == id[j]) != (r[i][j] && r[j][i])) bad++; } next:; }
  printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C16-trie-duplicate-counts", prop="C16",
 edits=[(X+"structure/container/aho_corasick_trie.h","            trie[cur_node].word_cnt += trie[suff_link].word_cnt;","            if (trie[cur_node].suff_link != trie[trie[cur_node].parent].suff_link) trie[cur_node].word_cnt += trie[suff_link].word_cnt;")],
 needs="a pattern that ends at the child of a node with the same suffix link as its child (repeated letters at the root level)",
 breaks="occurrences of patterns that are suffixes of longer dictionary words are not counted",
 demo=H+r'''
#include "altruct/structure/container/aho_corasick_trie.h"
using namespace altruct::container;
int main() { int bad = 0; std::vector<std::string> all; for (int n = 1; n <= 3; n++) for (int m = 0; m < 1 << n; m++) { std::string s; for (int i = 0; i < n; i++) s += 'a' + (m >> i & 1); all.push_back(s); }
  std::string text = "aababbaaabbbabaabab"; auto ord = [](char c) { return (char)(c - 'a'); };
  for (auto& p : all) for (auto& q : all) for (auto& s : all) { aho_corasick_trie<2> t; std::vector<std::string> d = {p, q, s}; int w = 0; for (auto& x : d) { t.insert(x.begin(), x.end(), ord); for (size_t i = 0; i + x.size() <= text.size(); i++) w += text.compare(i, x.size(), x) == 0; } t.build(); if (t.count_matches(text.begin(), text.end(), ord) != w) bad++; }
  printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C17-cumulative-ensure", prop="C17",
 edits=[("include/altruct/algorithm/hash/polynomial_hash.h","        size = std::max(size, curr_size + curr_size / 2);","        size = std::max(size, curr_size + curr_size / 2) & ~size_t(1);")],
 needs="the first request for more power tables asks for an odd size larger than one and a half times the current one, and the last power is used",
 breaks="the power tables are one entry too short: the hash of a longer string reads past their end",
 demo=H+r'''
#include "altruct/algorithm/hash/polynomial_hash.h"
using namespace altruct::hash; typedef polynomial_hash<1> P;
template<> int32_t P::M[] = {1000000007}; template<> int32_t P::B[] = {3}; template<> int32_t P::BI[] = {333333336};
template<> std::vector<int32_t> P::W[1] = {}; template<> std::vector<int32_t> P::WI[1] = {};
int main() { for (size_t n : {1, 2, 3, 7, 15, 33, 101}) { P::ensure(n); if (P::W[0].size() < n || P::WI[0].size() < n) { printf("ensure(%zu) gives %zu\n", n, P::W[0].size()); return 1; } } return 0; }
'''),
dict(id="C20-collect-unlocked-single-result", prop="C20",
 edits=[("include/altruct/concurrency/concurrency.h","            job_provider_lock.unlock();","            if (!job_provider.has_next_job()) job_provider_lock.release()->unlock(); else job_provider_lock.unlock();")],
 needs="x", breaks="x", demo="int main(){return 0;}"),
]
SEEDS=[s for s in SEEDS if s["needs"]!="x"]
