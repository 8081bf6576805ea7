// C14 lowest common ancestor and heavy-light decomposition against walking the tree.
// MC_BOUNDS: every rooted forest given by a parent array with parent[i] < i (all shapes) with up to 8 (thorough 9) nodes under four node numberings and three adjacency orders, every labelled tree with up to 7 (thorough 8) nodes, and every caterpillar / broom / binary / spider shape family up to 41 (81) nodes, listed shapes of 127..300 (520) nodes; for each: every node pair (ancestor, distance, node and edge walks) and every k
#include "graphs.h"
#include "large.h"
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/lowest_common_ancestor.h"
#include "altruct/algorithm/graph/heavy_light_decomposition.h"
using namespace gr;
typedef std::vector<int> vi; typedef weighted_edge<int> WE;
static graph<WE> build(const mat& m, int order) { int n = (int)m.size(); graph<WE> g(n); for (int u = 0; u < n; u++) for (int k = 0; k < n; k++) { int v = order == 0 ? k : order == 1 ? n - 1 - k : (k + u + 1) % n; if (m[u][v]) g.add_edge(u, WE(v, std::min(u, v) * 100 + std::max(u, v))); } return g; }
static void forest(const mat& m, int orders) {
    int n = (int)m.size(); mc::state(mc::H()(key(m))); vi par(n, -1), dep(n, -1), root(n, -1), que;
    for (int r = 0; r < n; r++) if (dep[r] < 0) { dep[r] = 0; root[r] = r; size_t q = que.size(); que.push_back(r); for (; q < que.size(); q++) { int u = que[q]; for (int v = 0; v < n; v++) if (m[u][v] && dep[v] < 0) { dep[v] = dep[u] + 1; par[v] = u; root[v] = r; que.push_back(v); } } }
    vi size(n, 1); for (int i = n - 1; i >= 0; i--) if (par[que[i]] >= 0) size[par[que[i]]] += size[que[i]];
    auto anc = [&](int u, int v) { if (root[u] != root[v]) return -1; while (u != v) { if (dep[u] >= dep[v]) u = par[u]; else v = par[v]; } return u; };
    for (int o = 0; o < orders; o++) {
        graph<WE> g = build(m, o); lowest_common_ancestor lca(g); mc::op(); std::string G = show(m) + "(order " + std::to_string(o) + ")";
        MC_CHECK(lca.depth(-1) == -1 && lca.ancestor(-1, -1) == -1, "no node");
        for (int u = 0; u < n; u++) { MC_CHECK(lca.depth(u) == dep[u], "depth(%d)=%d on %s", u, lca.depth(u), G.c_str()); MC_CHECK(lca.ancestor(u, -1) == -1 && lca.ancestor(-1, u) == -1, "ancestor with no node");
            for (int v = 0; v < n; v++) { int a = anc(u, v); MC_CHECK(lca.ancestor(u, v) == a, "ancestor(%d,%d)=%d expected %d on %s", u, v, lca.ancestor(u, v), a, G.c_str()); int x = a < 0 ? -1 : dep[u] + dep[v] - 2 * dep[a]; MC_CHECK(lca.distance(u, v) == x, "distance(%d,%d)=%d expected %d on %s", u, v, lca.distance(u, v), x, G.c_str()); } }
        graph<WE> h0 = g; heavy_light_decomposition h(h0); mc::op();
        graph<WE> h1 = g; heavy_light_decomposition_ex x(h1); mc::op();
        for (auto* q : {&h0, &h1}) { MC_CHECK(q->size() == n, "size"); for (int u = 0; u < n; u++) { std::vector<std::pair<int, int>> a, b; for (auto& e : g[u]) a.push_back({e.v, e.w}); for (auto& e : (*q)[u]) b.push_back({e.v, e.w}); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); MC_CHECK(a == b, "edges of node %d changed on %s", u, G.c_str()); } }
        vi seen(n, 0);
        for (int u = 0; u < n; u++) {
            int p = h.position(u); MC_CHECK(p >= 0 && p < n && !seen[p]++, "position(%d)=%d on %s", u, p, G.c_str()); MC_CHECK(h.node(p) == u, "node(position(%d)) on %s", u, G.c_str()); MC_CHECK(h.subtree_size(u) == size[u], "subtree_size(%d)=%d on %s", u, h.subtree_size(u), G.c_str());
            MC_CHECK(x.position(u) == p && x.node(p) == u && x.subtree_size(u) == size[u] && x.depth(u) == dep[u], "the extended structure differs on %s", G.c_str());
        }
        for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) { bool in = anc(u, v) == u; int d = h.position(v) - h.position(u); MC_CHECK(in == (d >= 0 && d < size[u]), "subtree of %d is not contiguous on %s", u, G.c_str()); }
        for (int u = 0; u < n; u++) { // chains: parent(u) is the node above the top of the chain, chain nodes are contiguous going down
            int t = u, top = h.parent(u), k = 0; while (t >= 0 && par[t] != top) { t = par[t]; k++; } MC_CHECK(t >= 0, "parent(%d)=%d is no ancestor on %s", u, top, G.c_str());
            for (int w = u, i = 0; i <= k; i++, w = par[w]) { MC_CHECK(h.position(w) == h.position(u) - i, "chain of %d is not contiguous on %s", u, G.c_str()); MC_CHECK(h.parent(w) == top, "chain of %d has two parents on %s", u, G.c_str()); }
            int light = 0; for (int w = u; w >= 0; w = h.parent(w)) light++; MC_CHECK((1 << (light - 1)) <= n, "path from %d to the root uses %d chains of %d nodes on %s", u, light, n, G.c_str());
            int w = u; for (int k2 = 0; k2 <= dep[u] + 2; k2++) { int e = k2 <= dep[u] ? w : -1; MC_CHECK(x.parent(u, k2) == e, "parent(%d,%d)=%d expected %d on %s", u, k2, x.parent(u, k2), e, G.c_str()); if (k2 <= dep[u]) w = par[w]; } MC_CHECK(x.parent(u, -1) == -1, "parent(u,-1)");
        }
        for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) {
            int a = anc(u, v); MC_CHECK(x.ancestor(u, v) == a && x.distance(u, v) == (a < 0 ? -1 : dep[u] + dep[v] - 2 * dep[a]), "extended queries"); if (a < 0) continue; mc::op();
            vi path, down; for (int w = u; w != a; w = par[w]) path.push_back(w); path.push_back(a); for (int w = v; w != a; w = par[w]) down.push_back(w); path.insert(path.end(), down.rbegin(), down.rend()); int len = (int)path.size(), up = dep[u] - dep[a], segs = 0;
            vi c(len, 0); int r = x.walk_nodes(u, v, [&](int b, int e, int pf, int pl, int L, bool rev) { segs++; MC_CHECK(L == len && b < e && std::abs(pf - pl) == e - b - 1 && (pf <= pl || rev) && (pf >= pl || !rev), "segment [%d,%d) path %d..%d of length %d on %s", b, e, pf, pl, L, G.c_str()); for (int i = b; i < e; i++) { int j = rev ? pf - (i - b) : pf + (i - b); MC_CHECK(j >= 0 && j < len && !c[j]++ && x.node(i) == path[j], "node walk %d..%d visits position %d as step %d on %s", u, v, i, j, G.c_str()); } });
            MC_CHECK(r == len, "walk_nodes(%d,%d)=%d on %s", u, v, r, G.c_str()); for (int k : c) MC_CHECK(k == 1, "node walk %d..%d misses a node on %s", u, v, G.c_str()); int lg = 0; while ((2 << lg) <= n) lg++; MC_CHECK(segs <= 2 * lg + 3, "walk %d..%d uses %d segments of %d nodes", u, v, segs, n);
            vi d(len, 0); r = x.walk_edges(u, v, [&](int b, int e, int pf, int pl, int L, bool rev) { MC_CHECK(L == len - 1 && b < e && std::abs(pf - pl) == e - b - 1, "edge segment on %s", G.c_str()); for (int i = b; i < e; i++) { int j = rev ? pf - (i - b) : pf + (i - b); MC_CHECK(j >= 0 && j < len - 1 && !d[j]++ && x.node(i) == (j < up ? path[j] : path[j + 1]), "edge walk %d..%d visits position %d as step %d on %s", u, v, i, j, G.c_str()); } });
            MC_CHECK(r == len - 1, "walk_edges(%d,%d)=%d on %s", u, v, r, G.c_str()); for (int j = 0; j < len - 1; j++) MC_CHECK(d[j] == 1, "edge walk %d..%d misses an edge on %s", u, v, G.c_str());
        }
    }
}
static mat from_parents(const vi& p) { int n = (int)p.size(); mat m = zero(n); for (int i = 0; i < n; i++) if (p[i] >= 0) m[i][p[i]] = m[p[i]][i] = 1; return m; }
static void numberings(const mat& m, int cnt, int orders) { int n = (int)m.size(); for (int v = 0; v < cnt; v++) { vi p(n); for (int i = 0; i < n; i++) p[i] = v == 0 ? i : v == 1 ? n - 1 - i : v == 2 ? (i & 1 ? n - 1 - i / 2 : i / 2) : (i + n / 2) % n; forest(relabel(m, p), v == 0 ? 3 : orders); } }
static void shapes(int n) { vi p(n); for (int i = 0; i < n; i++) p[i] = mc::choose(i + 1) - 1; numberings(from_parents(p), n > 7 ? 2 : n > 6 ? 3 : 4, n > 6 ? 1 : 2); }
static void labelled(int n) { vi code(n - 2), deg(n, 1); for (int& c : code) { c = mc::choose(n); deg[c]++; } mat m = zero(n); for (int c : code) for (int i = 0; i < n; i++) if (deg[i] == 1) { m[i][c] = m[c][i] = 1; deg[i]--; deg[c]--; break; } int a = -1; for (int i = 0; i < n; i++) if (deg[i] == 1) { if (a < 0) a = i; else m[a][i] = m[i][a] = 1; } forest(m, 2); }
static void families() {
    int N = mc::tier(40, 80), k = mc::choose(6), n = 2 + mc::choose(N - 1), par = mc::choose(3); vi p(n, -1);
    for (int i = 1; i < n; i++) switch (k) { case 0: p[i] = i - 1; break; case 1: p[i] = par == 0 ? (i - 1) / 2 : par == 1 ? (i - 1) / 3 : 0; break; case 2: p[i] = i & 1 ? std::max(0, i - 2 + (par == 1)) : i - 2 + (i == 1); if (p[i] >= i || p[i] < 0) p[i] = i - 1; break; case 3: p[i] = i <= n / 2 ? i - 1 : par == 0 ? n / 2 : par == 1 ? 0 : i - 1 - n / 2; break; case 4: p[i] = i < 2 + par ? 0 : i - 2 - par; break; default: p[i] = i & (i - 1); if (par == 1) p[i] = i - (i & -i) / 2 - 1; if (p[i] >= i || p[i] < 0) p[i] = 0; break; }
    if (par == 2 && n > 6) p[n / 3 + 1] = -1; // forest
    numberings(from_parents(p), 4, 1);
}
static void large() {
    static const int N[] = {127, 128, 200, 300, 520}; int n = N[mc::choose(mc::tier(4, 5))], k = mc::choose(9), num = mc::choose(mc::tier(2, (int)lg::NORDERS)); mc::trace("%d nodes, shape %d, numbering %d", n, k, num); lg::Lcg g(n + k * 3 + num); vi p(n, -1); int w = 1; while (w * w < n) w++;
    for (int i = 1; i < n; i++) p[i] = k == 0 ? i - 1 : k == 1 ? (i - 1) / 2 : k == 2 ? 0 : k == 3 ? (i < n / 2 ? i - 1 : i - n / 2) : k == 4 ? g.below(i) : k == 5 ? std::max(0, i - 1 - g.below(4)) : k == 6 ? (i % w ? i - 1 : std::max(0, i - w)) : k == 7 ? (i & (i - 1)) : i / 3 * 2 / 3; if (num % 2 && n > 150) p[n / 3] = p[n / 2] = -1;
    forest(relabel(from_parents(p), lg::order(n, (num * 4 + k) % lg::NORDERS)), 1); }
MC_SETUP(all) {
    mc::add("large", large, 36);
    for (int n = 0; n <= mc::tier(8, 9); n++) mc::add("shapes_" + std::to_string(n), [n] { shapes(n); }, n > 6 ? 24 : 1);
    for (int n = 3; n <= mc::tier(7, 8); n++) mc::add("labelled_" + std::to_string(n), [n] { labelled(n); }, n > 5 ? 8 : 1);
    mc::add("families", families, 18);
}
