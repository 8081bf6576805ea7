// Enumerated graphs for the graph checks: every labelled (di)graph is one resolution of the choices.
#pragma once
#include "mc.h"
#include "altruct/structure/graph/graph.h"
#include <algorithm>
#include <numeric>
namespace gr {
using namespace altruct::graph;
typedef std::vector<std::vector<int>> mat;
inline mat zero(int n) { return mat(n, std::vector<int>(n, 0)); }
// adjacency order variants: 0 increasing, 1 decreasing, 2 rotated
inline graph<edge> to_graph(const mat& m, int order = 0) {
    int n = (int)m.size(); graph<edge> g(n);
    for (int u = 0; u < n; u++) for (int k = 0; k < n; k++) { int v = order == 0 ? k : order == 1 ? n - 1 - k : (k + u + 1) % n; for (int c = 0; c < m[u][v]; c++) g.add_edge(u, edge(v)); }
    return g;
}
inline mat digraph(int n, bool loops, int maxmult = 1) { mat m = zero(n); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (u != v || loops) m[u][v] = mc::choose(maxmult + 1); return m; }
inline mat undirected(int n, int maxmult = 1) { mat m = zero(n); for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) m[u][v] = m[v][u] = mc::choose(maxmult + 1); return m; }
inline mat reach(const mat& m) { int n = (int)m.size(); mat r = m; for (int k = 0; k < n; k++) for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (r[u][k] && r[k][v]) r[u][v] = 1; for (auto& x : r) for (int& e : x) e = e != 0; return r; } // by at least one edge
inline std::string show(const mat& m) { std::string s; for (size_t u = 0; u < m.size(); u++) for (size_t v = 0; v < m.size(); v++) for (int k = 0; k < m[u][v]; k++) s += std::to_string(u) + ">" + std::to_string(v) + " "; return s; }
inline uint64_t key(const mat& m) { mc::H h; for (auto& r : m) h.range(r); return h; }
// permutation of 0..n-1 by choices
inline std::vector<int> perm(int n) { std::vector<int> p, pool(n); std::iota(pool.begin(), pool.end(), 0); while (!pool.empty()) { int i = pool.size() == 1 ? 0 : mc::choose((int)pool.size()); p.push_back(pool[i]); pool.erase(pool.begin() + i); } return p; }
inline mat relabel(const mat& m, const std::vector<int>& p) { int n = (int)m.size(); mat r = zero(n); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) r[p[u]][p[v]] = m[u][v]; return r; }
// number of weakly connected components
inline int components(const mat& m, std::vector<int>* id = 0, const std::vector<char>* skip = 0) {
    int n = (int)m.size(), c = 0; std::vector<int> d(n, -1); for (int s = 0; s < n; s++) { if (d[s] >= 0 || (skip && (*skip)[s])) continue; std::vector<int> st{s}; d[s] = c; while (!st.empty()) { int u = st.back(); st.pop_back(); for (int v = 0; v < n; v++) if ((m[u][v] || m[v][u]) && d[v] < 0 && !(skip && (*skip)[v])) { d[v] = c; st.push_back(v); } } c++; }
    if (id) *id = d; return c;
}
}
