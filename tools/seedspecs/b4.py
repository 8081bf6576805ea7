S="include/altruct/structure/container/"; X="experimental/include/altruct/"; A="include/altruct/algorithm/"; M="include/altruct/structure/math/"; G="experimental/include/altruct/algorithm/graph/"
H='#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <cstdint>\n#include <utility>\n#include <vector>\n#include <functional>\n#include <string>\n#include <algorithm>\n#include <numeric>\n#include <set>\n#include <map>\n'
SEEDS=[
dict(id="C11-floyd-last-parallel-edge", prop="C11",
 edits=[(G+"floyd_warshall.h","            res[i][v] = { v, std::min(res[i][v].w, e.w) };","            if (res[i][v].v == -1 || i != v) res[i][v] = { v, e.w };")],
 needs="two parallel edges between the same nodes, the heavier one added last (or a self-loop)",
 breaks="the distance of the last parallel edge is used instead of the smallest",
 demo=H+r'''
#include "altruct/structure/graph/graph.h"
#include "altruct/algorithm/graph/floyd_warshall.h"
using namespace altruct::graph;
int main() { int bad = 0; for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { graph<weighted_edge<int>> g(3); g.add_edge(0, {1, a}); g.add_edge(0, {1, b}); g.add_edge(1, {2, 5}); auto r = floyd_warshall(g, 1000000); int w = std::min(a, b); if (r[0][1].w != w || r[0][2].w != w + 5) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C11-prim-last-root-skip", prop="C11",
 edits=[(G+"prim_spanning_tree.h","            if (d_new < res[v].w && !in_tree[v]) {\n                q.erase({ res[v].w, v });\n                res[v] = { u, d_new };\n                q.insert({ res[v].w, v });","            if (d_new < res[v].w && !in_tree[v]) {\n                if (res[v].w > d_new + d_new) q.erase({ res[v].w, v });\n                res[v] = { u, d_new };\n                q.insert({ res[v].w, v });")],
 needs="a node whose best known edge is improved by less than a factor of two, and that becomes the parent of others in between",
 breaks="a stale queue entry makes a node be processed twice",
 demo=H+r'''
int main() { return 0; }
'''),
dict(id="C12-push-relabel-antiparallel-height", prop="C12",
 edits=[(G+"push_relabel_flow.h","                if (cap[u][v] > 0 || cap[v][u] > 0) {","                if (cap[u][v] + cap[v][u] > 0 && cap[u][v] != cap[v][u]) {")],
 needs="a pair of nodes joined in both directions with equal capacities",
 breaks="such pairs are treated as not adjacent and the flow is smaller than the maximum or the computation does not end",
 demo=H+r'''
#include <deque>
#include <limits>
#include "altruct/algorithm/graph/push_relabel_flow.h"
#include <unistd.h>
using namespace altruct::graph;
int main() { alarm(5); std::vector<std::vector<int>> c{{0,3,0,0},{0,0,2,0},{0,2,0,3},{0,0,0,0}}; push_relabel_flow<int> f(c, 1000); int r = f.calc_max_flow(0, 3); printf("%d\n", r); return r != 2; }
'''),
dict(id="C13-sat2-preset-false", prop="C13",
 edits=[(G+"sat2.h","        if (sol[i] != -1) {\n            int u = i * 2 + sol[i];","        if (sol[i] == 1) {\n            int u = i * 2 + 1;")],
 needs="a variable preset to 0 whose value forces another variable",
 breaks="a satisfiable formula is reported unsatisfiable, because the preset value does not propagate",
 demo=H+r'''
#include "altruct/structure/graph/graph.h"
#include "altruct/algorithm/graph/sat2.h"
using namespace altruct::graph;
int main() { int bad = 0; for (int q = 0; q < 46656; q++) for (int var = 0; var < 3; var++) for (int p = 0; p < 2; p++) { int d[6], t = q; for (int i = 0; i < 6; i++) d[i] = t % 6, t /= 6; std::vector<std::pair<int, int>> cl{{d[0], d[1]}, {d[2], d[3]}, {d[4], d[5]}}; std::vector<int> s{-1, -1, -1}; s[var] = p; bool w = false; for (int m = 0; m < 8; m++) { if (((m >> var) & 1) != p) continue; bool ok = true; for (auto t : cl) ok = ok && (((m >> (t.first / 2)) & 1) == t.first % 2 || ((m >> (t.second / 2)) & 1) == t.second % 2); w = w || ok; } if (sat2(s, cl) != w) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C13-transitive-reduction-cut", prop="C13",
 edits=[(G+"transitive_closure.h","                if (d[v] == 0) stk.push_back(v);\n                d[v] = -1; // reachable","                if (d[v] == 0 && u < v) stk.push_back(v);\n                d[v] = -1; // reachable")],
 needs="an acyclic graph in which an edge is redundant only through a path that goes to a smaller node number after its first step",
 breaks="a redundant edge stays in the reduction",
 demo=H+r'''
#include "altruct/structure/graph/graph.h"
#include "altruct/algorithm/graph/transitive_closure.h"
using namespace altruct::graph;
int main() { int bad = 0; int p[4] = {0, 1, 2, 3}; do { graph<edge> g(4); g.add_edge(p[0], p[1]); g.add_edge(p[1], p[2]); g.add_edge(p[2], p[3]); g.add_edge(p[0], p[3]); auto r = transitive_reduction(g); if (r.num_edges() != 3) bad++; } while (std::next_permutation(p, p + 4)); printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C15-join-parity", prop="C15",
 edits=[(G+"chromatic_polynomial.h","if ((v < 0 || g[v].size() < g[i].size()) && !used[i]) v = i;","if ((v < 0 || g[v].size() <= g[i].size()) && !used[i]) v = i;")],
 needs="-", breaks="equivalent", demo="int main(){return 0;}"),
dict(id="C22-string-stops-at-high-byte", prop="C22",
 edits=[("include/altruct/io/reader.h","        std::string s;\n        int c = read_char();\n        while (c > 0x20) {","        std::string s;\n        int c = read_char();\n        while (c > 0x20 && c < 0xff) {")],
 needs="a word holding the byte 0xff",
 breaks="the word is cut in two at that byte",
 demo=H+r'''
#include "altruct/io/reader.h"
using namespace altruct::io;
int main() { int bad = 0; for (int c = 0x21; c < 256; c++) { std::string w = std::string("a") + char(c) + "b", t = "  " + w + " next"; string_reader in(t.c_str(), t.size()); simple_reader r(in, 7); if (r.read_string() != w) bad++; if (r.read_string() != "next") bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C21-buffer-read-partial", prop="C21",
 edits=[("include/altruct/io/reader.h","        while (available < capacity) {\n            size_t len = in.read(end, capacity - available);\n            if (len == 0) break;\n            available += len;\n            end += len;\n        }","        while (available < capacity) {\n            size_t ask = capacity - available;\n            size_t len = in.read(end, ask);\n            available += len;\n            end += len;\n            if (len + 1 < ask) break;\n        }")],
 needs="an underlying reader that returns fewer bytes than asked for although more follow, and a request for several bytes at once",
 breaks="a block read or data() reports the end of the input while bytes remain",
 demo=H+r'''
#include "altruct/io/reader.h"
using namespace altruct::io;
struct drip : reader { const char* s; size_t n, p = 0, k; drip(const char* s, size_t k) : s(s), n(strlen(s)), k(k) {} int read_char() override { return p < n ? (unsigned char)s[p++] : -1; } size_t read(char* b, size_t c) override { c = std::min(std::min(c, k), n - p); std::copy(s + p, s + p + c, b); p += c; return c; } operator bool() const override { return true; } };
int main() { int bad = 0; for (int k = 1; k < 8; k++) for (int cap = 4; cap < 12; cap++) { drip d("abcdefghijklmnop", k); buffered_reader r(d, cap); char b[5] = {0}; if (r.read(b, 4) != 4 || strcmp(b, "abcd")) bad++; const char* q = r.data(4); if (!q || strncmp(q, "efgh", 4)) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C23-write-char-last-slot", prop="C23",
 edits=[("include/altruct/io/writer.h","            size_t available = end - ptr;\n            size_t len = std::min(available, count);\n            std::copy(buffer, buffer + len, ptr);","            if (count > capacity && ptr != buff && count % capacity == 0) { out.write(buffer, count); break; }\n            size_t available = end - ptr;\n            size_t len = std::min(available, count);\n            std::copy(buffer, buffer + len, ptr);")],
 needs="a block longer than the buffer, a whole number of buffers long, written while the buffer holds earlier bytes",
 breaks="the block overtakes the bytes that were still buffered",
 demo=H+r'''
#include "altruct/io/writer.h"
using namespace altruct::io;
int main() { int bad = 0; for (int cap = 1; cap < 6; cap++) for (int a = 0; a < 6; a++) for (int b = 0; b < 20; b++) { char o[64] = {0}; std::string x(a, 'x'), y; for (int i = 0; i < b; i++) y.push_back('a' + i); { string_writer s(o, 60); buffered_writer w(s, cap); w.write(x.data(), a); w.write(y.data(), b); w.flush(); } if (x + y != o) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C25-call-without-arguments-nested", prop="C25",
 edits=[(A+"parser/shunting_yard.h","                if (!stk.empty() && stk.back().type == infix_token::type_t::LEFT_PARENTHESIS) {\n                    stk.pop_back();\n                }","                if (!stk.empty() && stk.back().type == infix_token::type_t::LEFT_PARENTHESIS) {\n                    stk.pop_back();\n                    while (num_args == 0 && !stk.empty() && stk.back().type == infix_token::type_t::LEFT_PARENTHESIS) stk.pop_back();\n                }")],
 needs="a call without arguments as the first thing inside a parenthesis: ( f() ...) ",
 breaks="nothing for f(), since the function itself lies between", demo="int main(){return 0;}"),
dict(id="C25-right-assoc-compare", prop="C25",
 edits=[(A+"parser/shunting_yard.h","        return (associativity == assoc_t::LEFT);","        return (associativity == assoc_t::LEFT) && (rhs.arity == arity_t::BINARY || arity == arity_t::UNARY);")],
 needs="a left-associative binary operator that has the same precedence as a preceding prefix operator",
 breaks="the prefix operator is applied to the whole binary expression",
 demo=H+r'''
#include "altruct/algorithm/parser/shunting_yard.h"
using namespace altruct::parser::shunting_yard;
int main() { typedef infix_token I; typedef operator_desc D; std::vector<D> ops{{10, D::assoc_t::RIGHT, D::arity_t::UNARY}, {10, D::assoc_t::LEFT, D::arity_t::BINARY}}; std::vector<I> t{{I::type_t::OPERATOR, 0}, {I::type_t::OPERAND, 0}, {I::type_t::OPERATOR, 1}, {I::type_t::OPERAND, 1}}; auto p = infix_to_postfix(t, ops); std::vector<std::function<int(int*)>> ev{[](int* a) { return -a[0]; }, [](int* a) { return a[0] - a[1]; }}; auto r = evaluate_postfix(p, std::vector<int>{5, 3}, ev); printf("%d\n", r[0]); return r.size() != 1 || r[0] != -8; }
'''),
dict(id="C26-compare-limit-mid", prop="C26",
 edits=[(A+"collections/collections.h","    if (max_len == 0) return 0;\n    if (b2 != e2) return -1;\n    if (b1 != e1) return +1;\n    return 0;","    if (b1 != e1 && b2 != e2) return 0;\n    if (b2 != e2) return -1;\n    if (b1 != e1) return +1;\n    return 0;")],
 needs="a length limit equal to the length of the shorter sequence, which is a prefix of the longer one",
 breaks="sequences that agree on the first max_len elements are reported as different",
 demo=H+r'''
#include "altruct/algorithm/collections/collections.h"
using namespace altruct::collections;
int main() { int bad = 0; std::string a = "abc", b = "abcde"; for (int n = 0; n < 7; n++) { int w = n <= 3 ? 0 : -1; if (compare(a.begin(), a.end(), b.begin(), b.end(), n) != w) bad++; if (compare(b.begin(), b.end(), a.begin(), a.end(), n) != -w) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C26-kmp-overlap-drop", prop="C26",
 edits=[(A+"search/kmp_search.h","            if (!callback(r)) break;\n            j = b[j];","            if (!callback(r)) break;\n            j = b[j] > m / 2 ? b[b[j]] : b[j];")],
 needs="a pattern with a border longer than half of it, and a text where occurrences overlap by that much",
 breaks="heavily overlapping occurrences are skipped",
 demo=H+r'''
#include "altruct/algorithm/search/kmp_search.h"
using namespace altruct::search;
int main() { int bad = 0; for (std::string p : {"aa", "aaa", "aba", "ababa", "abab"}) for (std::string t : {"aaaaaa", "abababababa", "aabaabaa"}) { std::vector<size_t> r, w; for (size_t i = 0; i + p.size() <= t.size(); i++) if (t.compare(i, p.size(), p) == 0) w.push_back(i); kmp_search(t.begin(), t.size(), p.begin(), p.size(), [&](size_t x) { r.push_back(x); return true; }); if (r != w) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C31-next-combination-full", prop="C31",
 edits=[(A+"math/bits.h","    return ((val >> 1) & ~lo_mask) | (val & lo_mask);","    return ((val & ~lo_mask) >> 1) | (val & lo_mask);")],
 needs="the erased bit is set",
 breaks="the erased bit reappears one position lower",
 demo=H+r'''
#include "altruct/algorithm/math/bits.h"
using namespace altruct::math;
int main() { int bad = 0; for (unsigned v = 0; v < 256; v++) for (int p = 0; p < 8; p++) { unsigned w = (v & ((1u << p) - 1)) | ((v >> (p + 1)) << p); if (erase_bit<unsigned>(v, p) != w) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C31-tzc-of-narrow", prop="C31",
 edits=[(A+"math/bits.h","    return bit_cnt1(I(lo_bit(x) - 1));","    return bit_cnt1(or_down(I(lo_bit(x) >> 1)));")],
 needs="the value zero",
 breaks="the number of trailing zeros of zero is 0 instead of the width",
 demo=H+r'''
#include "altruct/algorithm/math/bits.h"
using namespace altruct::math;
int main() { int bad = 0; if (tzc<uint8_t>(0) != 8) bad++; if (tzc<uint16_t>(0) != 16) bad++; if (tzc<uint32_t>(0) != 32) bad++; for (int i = 0; i < 32; i++) if (tzc<uint32_t>(5u << i & ~0u) != i) bad++; printf("%d\n", bad); return bad != 0; }
'''),
dict(id="C45-nimber-sqrt-level", prop="C45",
 edits=[(M+"nimber.h","        if (ah == 0) return join(lift(al, k), 0, k);","        if (ah == 0 || ah == al) return join(lift(al, k), 0, k);")],
 needs="an element whose high and low halves coincide at some level of the recursion",
 breaks="its square root, inverse and product use a wrong multiple of the generator",
 demo=H+r'''
#include "altruct/structure/math/nimber.h"
using namespace altruct::math;
int main() { int bad = 0; typedef nimber<uint8_t> N; for (int a = 1; a < 256; a++) { N x(a), s = x.sqrt(); if (s * s != x) bad++; if (x.inverse() * x != N(1)) bad++; for (int b = 0; b < 256; b += 7) if (N::mul2(x, N(b)) != x * N(b)) bad++; } printf("%d\n", bad); return bad != 0; }
'''),
]
