// C10 graph editing, iterative DFS, topological sort, in-degrees.
// MC_BOUNDS: editing: every history of add_node/add_edge/add_edge2/delete_edge/delete_node/contract/deduplicate of 4 (quick) / 5 (thorough) operations from graphs with 0..3 nodes (plain and weighted edges, visited-state merging on the exact adjacency lists); DFS: every digraph with up to 3 nodes (self loops, double edges) and 4 nodes (5 undirected), three adjacency orders, every source, every set of refused nodes and refused parent/node parities; topological sort: every labelled DAG with up to 5 (6) nodes, with double edges up to 4; all of it on listed graphs of 20..150 nodes (12 shapes, 7 numberings, directed and undirected), and edit histories on graphs of 40 nodes
#include "graphs_big.h"
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/topological_sort.h"
#include <map>
using namespace gr;
typedef weighted_edge<int> wedge;
typedef std::vector<std::vector<std::vector<int>>> wm; // wm[u][v] = sorted weights of the edges u -> v
static std::string show(const wm& m) { std::string s; for (size_t u = 0; u < m.size(); u++) for (size_t v = 0; v < m.size(); v++) for (int w : m[u][v]) s += std::to_string(u) + ">" + std::to_string(v) + "(" + std::to_string(w) + ") "; return s; }
static int wof(const edge&) { return 0; } static int wof(const wedge& e) { return e.w; }
template <class E> static E mke(int v, int w); template <> edge mke<edge>(int v, int) { return edge(v); } template <> wedge mke<wedge>(int v, int w) { return wedge(v, w); }
template <class E> static wm observe(const graph<E>& g) {
    int n = g.size(); wm r(n, std::vector<std::vector<int>>(n)); int c = 0;
    for (int u = 0; u < n; u++) for (auto& e : g[u]) { MC_CHECK(e.v >= 0 && e.v < n, "edge %d>%d leaves the graph of size %d", u, e.v, n); r[u][e.v].push_back(wof(e)); c++; }
    for (auto& x : r) for (auto& y : x) std::sort(y.begin(), y.end());
    MC_CHECK(g.num_edges() == c, "num_edges"); return r;
}
static void erase_node(wm& m, int u) { int l = (int)m.size() - 1; std::swap(m[u], m[l]); m.pop_back(); for (auto& r : m) { r[u].clear(); if (u != l) { r[u] = r[l]; } r.pop_back(); } }
// equal up to the choice of the surviving representative of parallel edges (dedup)
template <class E> static void edit(int n0) {
    graph<E> g(n0); wm m(n0, std::vector<std::vector<int>>(n0)); int depth = mc::tier(4, 5), wc = 1; bool W = std::is_same<E, wedge>::value;
    for (int i = 0;; i++) {
        int n = g.size();
        mc::H k; k(depth - i)(n)(W); for (auto& l : g.adjl) { k(l.size()); for (auto& e : l) k(e.v)(wof(e)); }
        mc::state(k); if (i == depth || mc::seen(k)) return;
        int o = mc::choose(7), u = o && n ? mc::choose(n) : 0, v = o && o < 5 && n ? mc::choose(n) : 0; if (o && !n) return;
        const char* nm[] = {"add_node", "add_edge", "add_edge2", "delete_edge", "contract", "delete_node", "deduplicate"}; mc::trace("%s %d %d", nm[o], u, v);
        int w = W ? wc++ : 0; wm before = m; bool dedup = false;
        switch (o) {
        case 0: { if (n >= 4) return; int r = g.add_node(); MC_CHECK(r == n, "add_node returned %d", r); for (auto& x : m) x.push_back({}); m.push_back(std::vector<std::vector<int>>(n + 1)); break; }
        case 1: g.add_edge(u, mke<E>(v, w)); m[u][v].push_back(w); break;
        case 2: g.add_edge2(u, mke<E>(v, w)); m[u][v].push_back(w); m[v][u].push_back(w); break;
        case 3: g.delete_edge(u, v); m[u][v].clear(); break;
        case 4: { if (u == v) return; g.contract(u, v); dedup = true; m[u][v].clear(); m[v][u].clear();
            for (int x = 0; x < n; x++) { m[u][x].insert(m[u][x].end(), m[v][x].begin(), m[v][x].end()); m[v][x].clear(); }
            for (int x = 0; x < n; x++) { m[x][u].insert(m[x][u].end(), m[x][v].begin(), m[x][v].end()); m[x][v].clear(); }
            erase_node(m, v); break; }
        case 5: g.delete_node(u); erase_node(m, u); break;
        case 6: g.deduplicate_edges(u); for (int x = 0; x < n; x++) { auto& l = m[u][x]; if (l.size() > 1) { auto r = observe(g)[u][x]; MC_CHECK(r.size() == 1 && std::find(l.begin(), l.end(), r[0]) != l.end(), "deduplicate_edges(%d): edges to %d", u, x); l = r; } } break;
        }
        wm r = observe(g);
        for (auto& x : m) for (auto& y : x) std::sort(y.begin(), y.end());
        MC_CHECK(r.size() == m.size(), "%s(%d,%d): size %d, expected %d", nm[o], u, v, (int)r.size(), (int)m.size());
        if (dedup) for (size_t a = 0; a < m.size(); a++) for (size_t b = 0; b < m.size(); b++) if (m[a][b].size() > 1) { auto& l = m[a][b]; MC_CHECK(r[a][b].size() == 1 && std::find(l.begin(), l.end(), r[a][b][0]) != l.end(), "contract(%d,%d): edges %d>%d", u, v, (int)a, (int)b); l = r[a][b]; }
        MC_CHECK(r == m, "%s(%d,%d) on %s gives %s, expected %s", nm[o], u, v, show(before).c_str(), show(r).c_str(), show(m).c_str());
        mc::op();
    }
}
MC_SETUP(edits) { for (int n = 0; n <= 3; n++) { mc::add("edit_" + std::to_string(n), [n] { edit<edge>(n); }, 7); mc::add("edit_weighted_" + std::to_string(n), [n] { edit<wedge>(n); }, 7); } }

static void dfs_check(const mat& m, const graph<edge>& g, int src, const std::function<bool(int, int)>& ok) {
    int n = g.size(); std::vector<int> stk, entered(n, 0), depth(n, -1); std::vector<std::vector<int>> refused(n + 1, std::vector<int>(n, 0)); // refused[parent+1][node]
    int root = -2; std::string ctx = show(m) + " source " + std::to_string(src);
    iterative_dfs(g, [&](int r, int p, int u, int d) -> bool {
        mc::op();
        if (p == -1) { MC_CHECK(stk.empty() && u >= 0 && u < n && !entered[u] && r == u && d == 0 && (src == -1 || u == src), "bad root event (%d,%d,%d,%d) on %s", r, p, u, d, ctx.c_str()); }
        else MC_CHECK(!stk.empty() && stk.back() == p && r == root && d == depth[p] + 1, "bad event (%d,%d,%d,%d) on %s", r, p, u, d, ctx.c_str());
        if (u == -1) { // leaving p: every neighbour was entered or refused
            for (int v = 0; v < n; v++) if (m[p][v]) MC_CHECK(entered[v] || refused[p + 1][v], "node %d left before its neighbour %d was offered, %s", p, v, ctx.c_str());
            stk.pop_back(); return true; }
        MC_CHECK(!entered[u] && (p == -1 || m[p][u]), "node %d offered from %d wrongly on %s", u, p, ctx.c_str());
        if (!ok(p, u)) { refused[p + 1][u] = 1; return false; }
        entered[u] = 1; depth[u] = d; stk.push_back(u); if (p == -1) root = u; return true;
    }, src);
    MC_CHECK(stk.empty(), "not all nodes were left on %s", ctx.c_str());
    for (int u = 0; u < n; u++) if (src == -1 || u == src) MC_CHECK(entered[u] || refused[0][u], "root %d never offered on %s", u, ctx.c_str());
}
static void dfs_all(const mat& m, bool large = false) {
    int n = (int)m.size(); mc::state(mc::H()(key(m)));
    for (int order = 0; order < 3; order++) {
        graph<edge> g = to_graph(m, order);
        if (large) { for (int src = -1; src < n; src += 1 + n / 9) for (int k = 0; k < 4; k++) dfs_check(m, g, src, [&](int, int u) { return k == 0 || (u * 7 + k) % (k + 3) != 0; }); } else for (int src = -1; src < n; src++) for (int mask = 0; mask < (1 << n); mask++) { if (src == -1 || mask < 3 || mask == (1 << n) - 1) dfs_check(m, g, src, [&](int, int u) { return !(mask >> u & 1); }); }
        for (int par = 0; par < 2; par++) dfs_check(m, g, -1, [&](int p, int u) { return ((p + u) & 1) == par; });
        dfs_check(m, g, -1, [&](int p, int u) { return p == -1 || p < u; });
        std::vector<int> vp = parents(g), deg = in_degrees(g); MC_CHECK((int)vp.size() == n && (int)deg.size() == n, "sizes");
        mat r = reach(m);
        for (int u = 0; u < n; u++) {
            int d = 0; for (int v = 0; v < n; v++) d += m[v][u]; MC_CHECK(deg[u] == d, "in-degree of %d in %s is %d", u, show(m).c_str(), deg[u]);
            MC_CHECK(vp[u] >= -1 && vp[u] < n && (vp[u] == -1 || m[vp[u]][u]), "parent of %d in %s is %d", u, show(m).c_str(), vp[u]);
            int x = u, c = 0; while (x != -1 && c <= n) x = vp[x], c++; MC_CHECK(x == -1, "parents form a cycle on %s", show(m).c_str());
            if (vp[u] == -1) for (int v = 0; v < u; v++) MC_CHECK(!r[v][u], "%d is reachable from the earlier node %d but became a root in %s", u, v, show(m).c_str());
        }
    }
}
MC_SCENARIO(dfs_0, 1) { dfs_all(zero(0)); }
MC_SCENARIO(dfs_1, 1) { dfs_all(digraph(1, true, 2)); }
MC_SCENARIO(dfs_2, 1) { dfs_all(digraph(2, true, 2)); }
MC_SCENARIO(dfs_3_multi, 9) { dfs_all(digraph(3, true, 2)); }
MC_SCENARIO(dfs_4, 4) { dfs_all(digraph(4, mc::thorough())); }
MC_SCENARIO(dfs_5_undirected, 4) { dfs_all(undirected(5)); }
static void topo(const mat& m) {
    int n = (int)m.size(); mc::state(mc::H()(7)(key(m)));
    for (int order = 0; order < 3; order++) {
        std::vector<int> t = topological_sort(to_graph(m, order)), pos(n, -1); MC_CHECK((int)t.size() == n, "topological order %s of %s", mc::show(t).c_str(), show(m).c_str());
        for (int i = 0; i < n; i++) { MC_CHECK(t[i] >= 0 && t[i] < n && pos[t[i]] == -1, "topological order %s is not a permutation, %s", mc::show(t).c_str(), show(m).c_str()); pos[t[i]] = i; }
        for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (m[u][v]) MC_CHECK(pos[u] < pos[v], "edge %d>%d goes backwards in %s", u, v, mc::show(t).c_str());
        mc::op();
    }
}
MC_SETUP(topos) {
    for (int n = 0; n <= mc::tier(5, 6); n++) mc::add("topo_" + std::to_string(n), [n] { std::vector<int> p = perm(n); mat m = zero(n); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (p[u] < p[v]) m[u][v] = mc::choose(n <= 4 ? 3 : 2); topo(m); }, n >= 5 ? n * (n - 1) : 1);
}
static void large() {
    static const int N[] = {20, 63, 100, 150}; int n = N[mc::choose(mc::tier(3, 4))], shape = mc::choose(NBIG), num = mc::choose(lg::NORDERS), dir = mc::choose(2); mc::trace("%d nodes, shape %d, numbering %d, %s", n, shape, num, dir ? "directed" : "undirected");
    mat m = big(n, shape, dir != 0, num); if (num % 3 == 1) for (int u = 0; u < n; u += 5) { m[u][u] = 1; for (int v = 0; v < n; v += 3) if (m[u][v]) m[u][v] = 2; } dfs_all(m, true);
    if (shape == 8 || shape == 0) { if (dir && num % 3 != 1) topo(m); } std::vector<int> p = lg::order(n, (num + 2) % lg::NORDERS); mat a = zero(n); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (p[u] < p[v] && m[u][v]) a[u][v] = m[u][v]; topo(a); }
static void large_edit() { // long edit histories on a graph of 40 nodes
    int seed = mc::choose(mc::tier(40, 200)), n = 40; lg::Lcg g(seed + 1); graph<edge> G(n); wm m(n, std::vector<std::vector<int>>(n)); mc::state(mc::H()(seed)); mc::trace("edit history %d", seed);
    auto same = [&](const char* w, int u, int v) { wm r = observe(G); for (auto& x : m) for (auto& y : x) std::sort(y.begin(), y.end()); MC_CHECK(r == m, "after %s(%d,%d): the graph has other edges than expected", w, u, v); mc::op(); };
    for (int i = 0; i < 150; i++) { int u = g.below(n), v = g.below(n); if (i % 4 == 3) { G.add_edge2(u, edge(v)); m[u][v].push_back(0); m[v][u].push_back(0); } else { G.add_edge(u, edge(v)); m[u][v].push_back(0); } } same("add_edge", 0, 0);
    for (int i = 0; i < 120 && n > 3; i++) { int o = g.below(10), u = g.below(n), v = g.below(n);
        if (o < 4) { G.add_edge(u, edge(v)); m[u][v].push_back(0); same("add_edge", u, v); } else if (o == 4) { G.delete_edge(u, v); m[u][v].clear(); same("delete_edge", u, v); }
        else if (o == 5) { G.delete_node(u); erase_node(m, u); n--; same("delete_node", u, u); } else if (o == 6) { G.deduplicate_edges(u); for (auto& l : m[u]) if (l.size() > 1) l.resize(1); same("deduplicate_edges", u, u); }
        else if (o == 7 && u != v) { G.contract(u, v); m[u][v].clear(); m[v][u].clear(); for (int x = 0; x < n; x++) { m[u][x].insert(m[u][x].end(), m[v][x].begin(), m[v][x].end()); m[v][x].clear(); } for (int x = 0; x < n; x++) { m[x][u].insert(m[x][u].end(), m[x][v].begin(), m[x][v].end()); m[x][v].clear(); } erase_node(m, v); n--; wm r = observe(G); for (size_t a = 0; a < m.size(); a++) for (size_t b = 0; b < m.size(); b++) if (m[a][b].size() > 1 && r[a][b].size() == 1) m[a][b].resize(1); same("contract", u, v); }
        else if (o == 8) { int r = G.add_node(); MC_CHECK(r == n, "add_node returned %d", r); n++; for (auto& x : m) x.push_back({}); m.push_back(std::vector<std::vector<int>>(n)); same("add_node", n, n); } }
}
MC_SETUP(large_setup) { mc::add("large", large, 48); mc::add("large_edit", large_edit, 8); }
// every edge type is ordered by its end points (source first where it has one), whatever its weight
MC_SCENARIO(edge_order, 1) { int a = mc::choose(4), b = mc::choose(4); mc::state(mc::hash(a, b)); mc::op(); auto cmp = [&](auto x, auto y, int c, const char* w) { MC_CHECK((x < y) == (c < 0) && (y < x) == (c > 0) && (x == y) == (c == 0) && (y == x) == (c == 0) && x == x && !(x < x), "%s comparison of edges %d and %d", w, a, b); };
    cmp(altruct::graph::edge(a), altruct::graph::edge(b), a - b, "edge"); for (int s = 0; s < 3; s++) for (int t = 0; t < 3; t++) { int c = s != t ? s - t : a - b; cmp(altruct::graph::full_edge(s, a), altruct::graph::full_edge(t, b), c, "full edge");
        cmp(altruct::graph::weighted_full_edge<int>(s, a, t), altruct::graph::weighted_full_edge<int>(t, b, 1), c, "weighted full edge"); cmp(altruct::graph::weighted_edge<int>(a, s), altruct::graph::weighted_edge<int>(b, t), a - b, "weighted edge"); } }
