// C11 shortest paths (Dijkstra, Floyd-Warshall) and minimum spanning trees (Prim).
// MC_BOUNDS: Dijkstra and Floyd-Warshall: every weighted digraph with up to 3 nodes and weights absent/0/1/3 (self loops, parallel edges on 2 nodes) and 4 nodes with weights absent/1/3 (thorough: absent/0/1/3); negative weights -1,-2 without negative cycles up to 3 (4) nodes for Floyd-Warshall; every undirected weighted graph up to 4 nodes (weights absent/0/1/2/5) and 5 nodes (absent/1/2); Prim: all of the undirected graphs, also negative weights, parallel edges, 5 nodes with all distinct-weight orders; listed graphs of 20..80 (120) nodes (12 shapes, numberings, weight patterns); three adjacency orders, every source
// MC_ASSUME: weights are far from overflow; inf exceeds every path length
#include "graphs_big.h"
#include "altruct/algorithm/graph/dijkstra.h"
#include "altruct/algorithm/graph/floyd_warshall.h"
#include "altruct/algorithm/graph/prim_spanning_tree.h"
using namespace gr;
typedef weighted_edge<int> E; enum { NO = 1000000, INF = 1000 };
struct wg { int n; std::vector<std::vector<std::vector<int>>> w; wg(int n) : n(n), w(n, std::vector<std::vector<int>>(n)) {} };
static std::string show(const wg& m) { std::string s; for (int u = 0; u < m.n; u++) for (int v = 0; v < m.n; v++) for (int w : m.w[u][v]) s += std::to_string(u) + ">" + std::to_string(v) + "(" + std::to_string(w) + ") "; return s; }
static uint64_t key(const wg& m) { mc::H h; h(m.n); for (auto& r : m.w) for (auto& c : r) h.range(c); return h; }
static graph<E> build(const wg& m, int order) { graph<E> g(m.n); for (int u = 0; u < m.n; u++) for (int k = 0; k < m.n; k++) { int v = order == 0 ? k : order == 1 ? m.n - 1 - k : (k + u + 1) % m.n; auto l = m.w[u][v]; if (order == 1) std::reverse(l.begin(), l.end()); for (int w : l) g.add_edge(u, E(v, w)); } return g; }
static int best(const wg& m, int u, int v) { int b = INF; for (int w : m.w[u][v]) b = std::min(b, w); return b; }
static bool paths(const wg& m, mat& d) { // Bellman-Ford from every node; false on a negative cycle
    int n = m.n; d = mat(n, std::vector<int>(n, INF));
    for (int s = 0; s < n; s++) { d[s][s] = 0; bool ch = true; for (int it = 0; it <= n && ch; it++) { ch = false; for (int u = 0; u < n; u++) if (d[s][u] < INF) for (int v = 0; v < n; v++) if (!m.w[u][v].empty() && d[s][u] + best(m, u, v) < d[s][v]) { if (it == n) return false; d[s][v] = d[s][u] + best(m, u, v); ch = true; } } }
    return true;
}
static void shortest(const wg& m, bool neg) {
    mat d; if (!paths(m, d)) return; int n = m.n; mc::state(mc::H()(1)(key(m)));
    for (int order = 0; order < 3; order++) {
        graph<E> g = build(m, order);
        if (!neg) for (int s = 0; s < n; s++) {
            std::vector<E> r = dijkstra(g, s, (int)INF); MC_CHECK((int)r.size() == n, "size"); mc::op();
            for (int v = 0; v < n; v++) {
                MC_CHECK(r[v].w == d[s][v], "dijkstra from %d on %s: distance to %d is %d, expected %d", s, show(m).c_str(), v, r[v].w, d[s][v]);
                if (v == s) { MC_CHECK(r[v].v == s, "source predecessor"); continue; }
                if (d[s][v] == INF) { MC_CHECK(r[v].v == -1, "unreachable node %d has predecessor %d, %s", v, r[v].v, show(m).c_str()); continue; }
                int p = r[v].v; MC_CHECK(p >= 0 && p < n && !m.w[p][v].empty() && d[s][p] + best(m, p, v) == d[s][v], "dijkstra from %d on %s: predecessor of %d is %d", s, show(m).c_str(), v, p);
                int x = v, c = 0; while (x != s && c <= n) x = r[x].v, c++; MC_CHECK(x == s, "dijkstra from %d on %s: predecessors of %d do not lead to the source", s, show(m).c_str(), v);
            }
        }
        auto r = floyd_warshall(g, (int)INF); MC_CHECK((int)r.size() == n, "size"); mc::op();
        for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) {
            MC_CHECK(r[u][v].w == d[u][v], "floyd_warshall on %s: distance %d..%d is %d, expected %d", show(m).c_str(), u, v, r[u][v].w, d[u][v]);
            if (d[u][v] == INF) { MC_CHECK(r[u][v].v == -1, "floyd_warshall on %s: next hop %d for the unreachable pair %d..%d", show(m).c_str(), r[u][v].v, u, v); continue; }
            if (u == v) { MC_CHECK(r[u][v].v == u, "floyd_warshall next hop of a node to itself"); continue; }
            int x = u, c = 0, len = 0; while (x != v && c <= n) { int y = r[x][v].v; MC_CHECK(y >= 0 && y < n && !m.w[x][y].empty(), "floyd_warshall on %s: next hop %d of %d..%d is not a neighbour", show(m).c_str(), y, x, v); len += best(m, x, y); x = y; c++; }
            MC_CHECK(x == v && len == d[u][v], "floyd_warshall on %s: following next hops %d..%d gives length %d, expected %d", show(m).c_str(), u, v, len, d[u][v]);
        }
    }
}
static wg directed(int n, const std::vector<int>& ws, bool loops) { wg m(n); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (u != v || loops) { int k = mc::choose((int)ws.size() + 1); if (k) m.w[u][v].push_back(ws[k - 1]); } return m; }
static wg undir(int n, const std::vector<int>& ws) { wg m(n); for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) { int k = mc::choose((int)ws.size() + 1); if (k) { m.w[u][v].push_back(ws[k - 1]); m.w[v][u].push_back(ws[k - 1]); } } return m; }
static void mst(const wg& m) {
    int n = m.n; std::vector<int> id; mat a = zero(n); struct ee { int w, u, v; }; std::vector<ee> es; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) { a[u][v] = !m.w[u][v].empty(); if (u < v) for (int w : m.w[u][v]) es.push_back({w, u, v}); }
    components(a, &id); std::sort(es.begin(), es.end(), [](const ee& x, const ee& y) { return x.w < y.w; });
    std::vector<int> cost(n, 0), c(n); std::iota(c.begin(), c.end(), 0); for (auto& e : es) if (c[e.u] != c[e.v]) { cost[id[e.u]] += e.w; int x = c[e.v]; for (int& y : c) if (y == x) y = c[e.u]; } // Kruskal
    mc::state(mc::H()(2)(key(m)));
    for (int order = 0; order < 3; order++) { graph<E> g = build(m, order);
        for (int root = 0; root < n; root++) {
            std::vector<E> r = prim_spanning_tree(g, root, (int)INF); int sum = 0; mc::op(); MC_CHECK((int)r.size() == n, "size");
            for (int v = 0; v < n; v++) {
                if (v == root) { MC_CHECK(r[v].v == root && r[v].w == 0, "root entry {%d,%d} on %s root %d", r[v].v, r[v].w, show(m).c_str(), root); continue; }
                if (id[v] != id[root]) { MC_CHECK(r[v].v == -1 && r[v].w == INF, "node %d outside of the component is in the tree, %s", v, show(m).c_str()); continue; }
                int p = r[v].v; MC_CHECK(p >= 0 && p < n && std::count(m.w[p][v].begin(), m.w[p][v].end(), r[v].w), "tree edge %d-%d(%d) is not an edge, %s", p, v, r[v].w, show(m).c_str()); sum += r[v].w;
                int x = v, k = 0; while (x != root && k <= n) x = r[x].v, k++; MC_CHECK(x == root, "prim from %d on %s: node %d is not connected to the root", root, show(m).c_str(), v);
            }
            MC_CHECK(sum == cost[id[root]], "prim from %d on %s: weight %d, minimum is %d", root, show(m).c_str(), sum, cost[id[root]]);
        } }
}
static void large() { // no path is longer than INF
    static const int N[] = {20, 45, 80, 120}; int n = N[mc::choose(mc::tier(3, 4))], shape = mc::choose(NBIG), num = mc::choose(mc::tier(3, (int)lg::NORDERS)) * 2 % lg::NORDERS, dir = mc::choose(3); mc::trace("%d nodes, shape %d, numbering %d, kind %d", n, shape, num, dir);
    mat a = big(n, shape, dir != 0, num); wg m(n); lg::Lcg g(n + shape * 3 + num * 5); int top = 900 / n; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (a[u][v] && (dir || u <= v)) for (int k = 0; k < 1 + (num % 3 == 2 && g.below(4) == 0); k++) { int w = num % 2 ? g.below(3) : g.below(top); m.w[u][v].push_back(w); if (!dir && u != v) m.w[v][u].push_back(w); }
    if (dir == 2) { std::vector<int> pot(n); for (int& p : pot) p = g.below(30); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) for (int& w : m.w[u][v]) w += pot[v] - pot[u]; shortest(m, true); } // negative arcs, no negative cycles
    else shortest(m, false); if (dir == 0) mst(m); }
static void both(const wg& m) { shortest(m, false); mst(m); }
MC_SETUP(all) {
    mc::add("large", large, 36);
    for (int n = 0; n <= 3; n++) mc::add("directed_" + std::to_string(n), [n] { shortest(directed(n, {0, 1, 3}, n < 3 || mc::thorough()), false); }, n == 3 ? 16 : 1);
    mc::add("directed_2_parallel", [] { wg m(2); for (int u = 0; u < 2; u++) for (int v = 0; v < 2; v++) for (int k = 0, c = mc::choose(3); k < c; k++) m.w[u][v].push_back(mc::choose(4)); shortest(m, false); }, 4);
    if (mc::thorough()) mc::add("directed_4_full", [] { shortest(directed(4, {0, 1, 3}, false), false); }, 16);
    mc::add("directed_4", [] { shortest(directed(4, {1, 3}, false), false); }, 9);
    for (int n = 1; n <= 3; n++) mc::add("negative_" + std::to_string(n), [n] { shortest(directed(n, {-2, -1, 0, 2, 5}, n < 3), true); }, n == 3 ? 36 : 1);
    mc::add("negative_4", [] { shortest(directed(4, mc::thorough() ? std::vector<int>{-1, 0, 2} : std::vector<int>{-1, 1}, false), true); }, 9);
    for (int n = 0; n <= 4; n++) mc::add("undirected_" + std::to_string(n), [n] { both(undir(n, {0, 1, 2, 5})); }, n == 4 ? 25 : 1);
    mc::add("undirected_5", [] { both(undir(5, {1, 2})); }, 9);
    if (mc::thorough()) mc::add("undirected_5_w3", [] { both(undir(5, {1, 2, 4})); }, 16);
    mc::add("prim_negative_4", [] { mst(undir(4, {-3, -1, 0, 2})); }, 25);
    mc::add("prim_parallel_3", [] { wg m(3); for (int u = 0; u < 3; u++) for (int v = 0; v < u; v++) for (int k = 0, c = mc::choose(3); k < c; k++) { int w = mc::choose(4) - 1; m.w[u][v].push_back(w); m.w[v][u].push_back(w); } mst(m); }, 4);
    mc::add("prim_distinct_weights_5", [] { // every assignment of distinct weights to the edges of a wheel/cycle with chords
        static const int ed[][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 0}, {0, 2}, {1, 3}, {2, 4}}; int ne = mc::thorough() ? 8 : 7; std::vector<int> p = perm(ne); wg m(5);
        for (int i = 0; i < ne; i++) { m.w[ed[i][0]][ed[i][1]].push_back(p[i] * 2 + 1); m.w[ed[i][1]][ed[i][0]].push_back(p[i] * 2 + 1); } both(m); }, 6);
}
