// C12 maximum flows (Dinic, push-relabel), bipartite matching and the assignment problem.
// MC_BOUNDS: flows: every capacity matrix on 2 (0..5, self loops), 3 (0..3, self loops on request) and 4 nodes (0,1,3 on all 12 arcs), on 5 nodes every network with capacities 0..2 on the arcs not entering the source or leaving the sink, on 6 nodes every acyclic network in topological order with unit terminal arcs and inner capacities 0..2 and (thorough) all unit capacities, and on 8 nodes layered networks with back arcs; every source/sink pair for up to 4 nodes, three node numberings, capacities scaled to 64 bits, the same object reused for other terminals; oracle: minimum over all cuts plus conservation and capacity of the returned flow. Matching: every bipartite graph up to 4x4, 3x5, 5x3 (thorough 5x4), parallel edges up to 3x3, interleaved numberings, both edge orders; oracle: matching DP over subsets. Assignment: every cost matrix over {-1,0,2} (thorough -1..2) for n <= 3, {0,1} for n = 4, every matrix which is a permutation-coded Latin family for n = 5, listed networks of 12..80 nodes against augmenting paths and a checked cut, bipartite graphs of up to 60+70 nodes against augmenting paths, cost matrices of up to 40x40 against successive shortest paths; min and max on one object, resized up and down; oracle: all permutations
// MC_ASSUME: 'infinity' given to push-relabel exceeds the sum of the capacities and capacities do not overflow
#include "graphs_big.h"
#include "altruct/algorithm/graph/dinic_flow.h"
#include "altruct/algorithm/graph/push_relabel_flow.h"
#include "altruct/algorithm/graph/bipartite_matching.h"
#include "altruct/algorithm/graph/hungarian.h"
using namespace gr;
template <class T> using M = std::vector<std::vector<T>>;
// shortest augmenting paths; the value is confirmed by the cut of the nodes still reachable
template <class T> static T augment(const M<T>& c, int s, int t) {
    int n = (int)c.size(); M<T> r = c; T val = 0; for (;;) { std::vector<int> from(n, -1), q{s}; from[s] = s; for (size_t k = 0; k < q.size(); k++) for (int v = 0; v < n; v++) if (from[v] < 0 && r[q[k]][v] > 0) { from[v] = q[k]; q.push_back(v); } if (from[t] < 0) { T cut = 0; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (from[u] >= 0 && from[v] < 0) cut += c[u][v]; MC_CHECK(cut == val, "oracle"); return val; } T b = r[from[t]][t]; for (int v = t; v != s; v = from[v]) b = std::min(b, r[from[v]][v]); for (int v = t; v != s; v = from[v]) r[from[v]][v] -= b, r[v][from[v]] += b; val += b; }
}
template <class T> static T min_cut(const M<T>& c, int s, int t) {
    int n = (int)c.size(); if (n > 10) return augment(c, s, t); bool first = true; T b = 0;
    for (int S = 0; S < 1 << n; S++) { if (!(S >> s & 1) || (S >> t & 1)) continue; T x = 0; for (int u = 0; u < n; u++) if (S >> u & 1) for (int v = 0; v < n; v++) if (!(S >> v & 1)) x += c[u][v]; if (first || x < b) b = x, first = false; }
    return b;
}
template <class T> static std::string sh(const M<T>& c) { std::string s; for (size_t u = 0; u < c.size(); u++) for (size_t v = 0; v < c.size(); v++) if (c[u][v]) s += std::to_string(u) + ">" + std::to_string(v) + "(" + std::to_string(c[u][v]) + ") "; return s; }
template <class T> static void check_flow(const char* what, const M<T>& c, const M<T>& f, int s, int t, T val, T expect, bool anti) {
    int n = (int)c.size(); MC_CHECK(val == expect, "%s %d..%d on %s: %s, minimum cut is %s", what, s, t, sh(c).c_str(), std::to_string(val).c_str(), std::to_string(expect).c_str());
    MC_CHECK((int)f.size() == n, "%s flow matrix size", what);
    for (int u = 0; u < n; u++) {
        MC_CHECK((int)f[u].size() == n, "%s flow matrix size", what); T net = 0;
        for (int v = 0; v < n; v++) {
            MC_CHECK(f[u][v] <= c[u][v], "%s %d..%d on %s: flow %d>%d exceeds the capacity", what, s, t, sh(c).c_str(), u, v);
            if (anti) { MC_CHECK(f[u][v] == -f[v][u], "%s: flow %d>%d is not antisymmetric", what, u, v); net += f[u][v]; }
            else { MC_CHECK(f[u][v] >= 0, "%s: negative flow %d>%d on %s", what, u, v, sh(c).c_str()); net += f[u][v] - f[v][u]; }
        }
        MC_CHECK(net == (u == s ? val : u == t ? -val : 0), "%s %d..%d on %s: net flow out of node %d is %s", what, s, t, sh(c).c_str(), u, std::to_string(net).c_str());
    }
}
template <class T> static void flows(const M<T>& c, const std::vector<std::pair<int, int>>& st) {
    altruct::graph::dinic_flow<T> d(c); T sum = 1; for (auto& r : c) for (T x : r) sum += x;
    altruct::graph::dinic_flow<T> d2(c, sum); altruct::graph::push_relabel_flow<T> p(c, sum);
    typedef altruct::graph::push_relabel_flow<T> PR;
    for (auto& e : st) { int s = e.first, t = e.second; mc::op();
        if (s == t) { MC_CHECK(d.calc_max_flow(s, t) == 0 && p.calc_max_flow(s, t) == 0 && p.calc_max_flow(s, t, PR::LARGEST_LABEL) == 0, "source = sink"); continue; }
        T x = min_cut(c, s, t);
        T v = d.calc_max_flow(s, t); check_flow("dinic", c, d.flow, s, t, v, x, false);
        v = d2.calc_max_flow(s, t); check_flow("dinic(infinity)", c, d2.flow, s, t, v, x, false);
        v = p.calc_max_flow(s, t); check_flow("push_relabel(default)", c, p.flow, s, t, v, x, true);
        v = p.calc_max_flow(s, t, PR::LARGEST_LABEL); check_flow("push_relabel(largest label)", c, p.flow, s, t, v, x, true);
        v = p.calc_max_flow(s, t, PR::RELABEL_TO_FRONT); check_flow("push_relabel(relabel to front)", c, p.flow, s, t, v, x, true);
    }
}
static void all_pairs(const mat& c) {
    int n = (int)c.size(); mc::state(mc::H()(1)(key(c))); std::vector<std::pair<int, int>> st; for (int s = 0; s < n; s++) for (int t = 0; t < n; t++) st.push_back({s, t});
    flows(c, st);
}
static mat caps(int n, const std::vector<int>& vals, bool loops) { mat c = zero(n); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (u != v || loops) c[u][v] = vals[mc::choose((int)vals.size())]; return c; }
static void terminals(const mat& c0, int s, int t) { // node numbering variants and 64-bit scaling
    int n = (int)c0.size(); mc::state(mc::H()(2)(key(c0)));
    for (int k = 0; k < 3; k++) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = k == 0 ? i : k == 1 ? n - 1 - i : (i * (n % 2 ? 2 : n - 1) + 1) % n; if (k == 2) { std::vector<int> q = p; std::sort(q.begin(), q.end()); if (std::unique(q.begin(), q.end()) != q.end()) continue; }
        mat c = relabel(c0, p);
        if (k < 2) flows(c, {{p[s], p[t]}});
        else { M<long long> L(n, std::vector<long long>(n)); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) L[u][v] = c[u][v] * 300000000007LL; flows(L, {{p[s], p[t]}}); } }
}
static void network(int inner, const std::vector<int>& vals, bool direct) { // arcs not entering the source, not leaving the sink
    int n = inner + 2, s = 0, t = n - 1; mat c = zero(n); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (u != v && v != s && u != t && (direct || u != s || v != t)) c[u][v] = vals[mc::choose((int)vals.size())];
    terminals(c, s, t);
}
static void layered() { // s, two layers of three, t; unit arcs forward, one chosen set of back arcs
    int n = 8; mat c = zero(n); for (int i = 0; i < 3; i++) { c[0][1 + i] = 1 + (i == 1); c[4 + i][7] = 1 + (i == 2); for (int j = 0; j < 3; j++) c[1 + i][4 + j] = mc::choose(2); }
    int b = mc::choose(8); for (int i = 0; i < 3; i++) if (b >> i & 1) { c[4 + i][1 + (i + 1) % 3] = 1; c[1 + i][1 + (i + 1) % 3] = 1; } int lim = mc::choose(4); if (lim < 3) c[0][1 + lim] = 0;
    terminals(c, 0, 7);
}
// ---- bipartite matching
struct PE { int u, v, id; PE(int u, int v, int id) : u(u), v(v), id(id) {} };
static int max_match(const std::vector<std::pair<int, int>>& es, int L, int R) { if (R > 12) { std::vector<std::vector<int>> a(L); for (auto& e : es) a[e.first].push_back(e.second); std::vector<int> of(R, -1); int r = 0; for (int l = 0; l < L; l++) { std::vector<char> vis(R, 0); std::function<bool(int)> go = [&](int u) { for (int v : a[u]) if (!vis[v]) { vis[v] = 1; if (of[v] < 0 || go(of[v])) { of[v] = u; return true; } } return false; }; r += go(l); } return r; } std::vector<int> adj(L, 0); for (auto& e : es) adj[e.first] |= 1 << e.second; std::vector<int> best(1 << R, -1); best[0] = 0; for (int l = 0; l < L; l++) { auto nb = best; for (int S = 0; S < 1 << R; S++) if (best[S] >= 0) for (int r = 0; r < R; r++) if ((adj[l] >> r & 1) && !(S >> r & 1)) nb[S | 1 << r] = std::max(nb[S | 1 << r], best[S] + 1); best = nb; } return *std::max_element(best.begin(), best.end()); }
static void match_check(int L, int R, const std::vector<std::pair<int, int>>& es);
static void matching(int L, int R, int mult) {
    std::vector<std::pair<int, int>> es; mc::H h; h(L)(R); for (int i = 0; i < L; i++) for (int j = 0; j < R; j++) { int k = mc::choose(mult + 1); h(k); while (k--) es.push_back({i, j}); } mc::state(h);
    match_check(L, R, es);
}
static void match_check(int L, int R, const std::vector<std::pair<int, int>>& es) {
    int x = max_match(es, L, R), n = L + R + 1;
    for (int var = 0; var < 4; var++) {
        auto l = [&](int i) { return var < 2 ? i : var == 2 ? n - 1 - i : i < R ? 2 * i : R + i; }; auto r = [&](int j) { return var < 2 ? L + j : var == 2 ? j : j < L ? 2 * j + 1 : L + j; };
        std::vector<PE> v; for (size_t k = 0; k < es.size(); k++) { auto e = var & 1 ? es[es.size() - 1 - k] : es[k]; v.push_back(PE(l(e.first), r(e.second), (int)k)); }
        auto m = altruct::graph::bipartite_matching(n, v); mc::op(); std::vector<char> used(2 * n + 2), ids(v.size() + 1);
        for (auto& e : m) { MC_CHECK(e.id >= 0 && e.id < (int)v.size() && v[e.id].u == e.u && v[e.id].v == e.v && !ids[e.id]++, "matching selects an edge that was not given"); MC_CHECK(!used[e.u]++ && !used[e.v]++, "matching uses a node twice (%d x %d, variant %d)", L, R, var); }
        MC_CHECK((int)m.size() == x, "matching of %d edges, maximum is %d (%d x %d, variant %d)", (int)m.size(), x, L, R, var);
        std::vector<altruct::graph::full_edge> fe; for (auto& e : v) fe.push_back(altruct::graph::full_edge(e.u, e.v)); MC_CHECK((int)altruct::graph::bipartite_matching(n, fe).size() == x, "matching of full edges");
    }
}
// ---- assignment
// successive shortest paths (Bellman-Ford over the residual graph); optimal because no negative cycle remains
template <class I> static I cheapest(const M<I>& c, bool maximum) {
    int n = (int)c.size(); std::vector<int> of(n, -1), to(n, -1); I sum = 0; auto w = [&](int i, int j) { return maximum ? -c[i][j] : c[i][j]; };
    for (int k = 0; k < n; k++) { std::vector<I> d(n, 0), e(n, 0); std::vector<char> dk(n, 0), ek(n, 0); std::vector<int> pe(n, -1); for (int i = 0; i < n; i++) if (to[i] < 0) dk[i] = 1; bool ch = true; while (ch) { ch = false; for (int i = 0; i < n; i++) if (dk[i]) for (int j = 0; j < n; j++) if (to[i] != j && (!ek[j] || d[i] + w(i, j) < e[j])) { ek[j] = 1; e[j] = d[i] + w(i, j); pe[j] = i; ch = true; int o = of[j]; if (o >= 0 && (!dk[o] || e[j] - w(o, j) < d[o])) { dk[o] = 1; d[o] = e[j] - w(o, j); } } }
        int b = -1; for (int j = 0; j < n; j++) if (of[j] < 0 && ek[j] && (b < 0 || e[j] < e[b])) b = j; sum += e[b]; for (int j = b; j >= 0;) { int i = pe[j], nj = to[i]; of[j] = i; to[i] = j; j = nj; } }
    return maximum ? -sum : sum;
}
template <class I> static void assign_check(altruct::graph::hungarian<I>& h, const M<I>& c, bool maximum) {
    int n = (int)c.size(); std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); I b = 0; bool first = true;
    if (n > 7) b = cheapest(c, maximum); else do { I s = 0; for (int i = 0; i < n; i++) s += c[i][p[i]]; if (first || (maximum ? s > b : s < b)) b = s, first = false; } while (std::next_permutation(p.begin(), p.end()));
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) h.cost(i, j) = c[i][j];
    I r = maximum ? h.calc_max_cost() : h.calc_min_cost(); mc::op(); auto str = [&] { std::string s; for (auto& q : c) { for (I x : q) s += std::to_string(x) + " "; s += "; "; } return s; };
    MC_CHECK(r == b, "%s cost of [%s] is %s, expected %s", maximum ? "maximal" : "minimal", str().c_str(), std::to_string(r).c_str(), std::to_string(b).c_str());
    auto x = h.get_matches_for_x(), y = h.get_matches_for_y(); MC_CHECK((int)x.size() >= n && (int)y.size() >= n, "match vectors"); I s = 0;
    for (int i = 0; i < n; i++) { MC_CHECK(x[i] >= 0 && x[i] < n && y[x[i]] == i, "matches of [%s] are not a permutation", str().c_str()); s += c[i][x[i]]; }
    MC_CHECK(s == b, "the reported matching of [%s] does not have the reported cost", str().c_str());
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) MC_CHECK(h.cost(i, j) == c[i][j], "cost(%d,%d) changed", i, j);
}
static void assignment(int n, const std::vector<int>& vals) {
    M<int> c(n, std::vector<int>(n)); mc::H k; k(n); for (auto& r : c) for (int& x : r) { x = vals[mc::choose((int)vals.size())]; k(x); } mc::state(k);
    altruct::graph::hungarian<int> h; h.resize(n); assign_check(h, c, true); assign_check(h, c, false); assign_check(h, c, true);
    if (n > 1) { M<int> d(c.begin(), c.end() - 1); for (auto& r : d) r.pop_back(); h.resize(n - 1); assign_check(h, d, false); h.resize(n); assign_check(h, c, false); }
    M<long long> L(n, std::vector<long long>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) L[i][j] = c[i][j] * 1000000000039LL + i * 3; altruct::graph::hungarian<long long> g; g.resize(n); assign_check(g, L, false); assign_check(g, L, true);
}
static void assignment_perm(int n) { // rank-like matrices: row i is a chosen permutation of base weights
    static const int base[] = {0, 1, 3, 7, 4}; M<int> c(n, std::vector<int>(n)); mc::H k; k(99); int rows = mc::tier(3, 4);
    for (int i = 0; i < n; i++) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); if (i > 0 && i <= rows - (n > 4)) { if (n > 4 && i == 2) { int r = mc::choose(n); std::rotate(p.begin(), p.begin() + r, p.end()); } else p = perm(n); } else if (i) std::rotate(p.begin(), p.begin() + 1, p.end()); for (int j = 0; j < n; j++) { c[i][j] = base[p[j]] + (i == j); k(c[i][j]); } } mc::state(k);
    altruct::graph::hungarian<int> h; h.resize(n); assign_check(h, c, false); assign_check(h, c, true);
}
static void large_flow() {
    static const int N[] = {12, 25, 40, 80}; int n = N[mc::choose(4)], shape = mc::choose(NBIG), num = mc::choose(lg::NORDERS), kind = mc::choose(3); mc::trace("network of %d nodes, shape %d, numbering %d, capacities of kind %d", n, shape, num, kind); mc::state(mc::H()(n)(shape)(num)(kind)); lg::Lcg g(n + shape + num * 3);
    mat a = big(n, shape, (shape + num) % 2 != 0, num), c = zero(n); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (a[u][v]) c[u][v] = kind == 0 ? 1 : kind == 1 ? 1 + g.below(20) : (g.below(3) ? 1 + g.below(3) : 1000 + g.below(50)); std::vector<std::pair<int, int>> st{{0, n - 1}, {n - 1, 0}, {n / 3, n / 2}, {g.below(n), g.below(n)}};
    if (kind == 2) { M<long long> L(n, std::vector<long long>(n)); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) L[u][v] = c[u][v] * 10000000019LL; flows(L, st); } else flows(c, st); }
static void large_matching() {
    static const int N[][2] = {{13, 13}, {20, 30}, {40, 30}, {60, 70}}; int s = mc::choose(4), L = N[s][0], R = N[s][1], kind = mc::choose(8), seed = mc::choose(mc::tier(4, 30)); mc::trace("%d x %d nodes, kind %d, member %d", L, R, kind, seed); mc::state(mc::H()(L)(R)(kind)(seed)); lg::Lcg g(s * 100 + kind * 10 + seed); std::vector<std::pair<int, int>> es;
    for (int i = 0; i < L; i++) for (int j = 0; j < R; j++) if (kind == 0 ? g.below(R) < 2 : kind == 1 ? j >= i - seed && j <= i : kind == 2 ? j == i || j == i + 1 + seed : kind == 3 ? i * R <= j * L + seed : kind == 4 ? g.below(L) < 1 + seed % 3 : kind == 5 ? (i < L / 2 ? j < R / 4 + seed : g.below(8) == 0) : kind == 6 ? g.below(4) == 0 : (i + j * 3 + seed) % 11 == 0) es.push_back({i, j});
    std::vector<int> o = lg::order((int)es.size(), seed % lg::NORDERS); std::vector<std::pair<int, int>> x; for (int k : o) x.push_back(es[k]); match_check(L, R, x); }
static void large_assign() {
    static const int N[] = {8, 13, 25, 40}; int n = N[mc::choose(4)], kind = mc::choose(7), seed = mc::choose(mc::tier(4, 20)); mc::trace("cost matrix %d x %d, kind %d, member %d", n, n, kind, seed); mc::state(mc::H()(n)(kind)(seed)); lg::Lcg g(n * 50 + kind * 8 + seed); M<int> c(n, std::vector<int>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c[i][j] = kind == 0 ? g.below(2) : kind == 1 ? g.below(1000) - 300 : kind == 2 ? (i + 1) * (j + 1 + seed) : kind == 3 ? (i - j) * (i - j) : kind == 4 ? g.below(10) - 5 : kind == 5 ? ((i + j) % n == seed ? -1 : g.below(3)) : -(i + j) - g.below(4);
    altruct::graph::hungarian<int> h; h.resize(n); assign_check(h, c, false); assign_check(h, c, true); assign_check(h, c, false); M<long long> L(n, std::vector<long long>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) L[i][j] = c[i][j] * 1000000000039LL + i; altruct::graph::hungarian<long long> q; q.resize(n); assign_check(q, L, true); assign_check(q, L, false); }
MC_SETUP(all) {
    mc::add("large_flow", large_flow, 36); mc::add("large_matching", large_matching, 8); mc::add("large_assign", large_assign, 8);
    mc::add("flow_2", [] { all_pairs(caps(2, {0, 1, 2, 5}, true)); }); mc::add("flow_1", [] { all_pairs(caps(1, {0, 1}, true)); });
    mc::add("flow_3", [] { all_pairs(caps(3, {0, 1, 2, 3}, false)); }, 16); mc::add("flow_3_loops", [] { all_pairs(caps(3, {0, 2}, true)); }, 4);
    mc::add("flow_4", [] { mat c = zero(4); for (int u = 0; u < 4; u++) for (int v = 0; v < 4; v++) if (u != v) c[u][v] = (v == 0 || u == 3) ? mc::choose(2) : mc::thorough() ? mc::choose(3) : (u == 0 || v == 3) ? mc::choose(3) : mc::choose(2) * 2; mc::thorough() ? all_pairs(c) : terminals(c, 0, 3); }, 9);
    mc::add("network_4", [] { network(2, {0, 1, 2, 3, 4}, true); }, 25);
    mc::add("network_5", [] { network(3, mc::thorough() ? std::vector<int>{0, 1, 2} : std::vector<int>{0, 2}, false); }, 8);
    mc::add("network_5_sides", [] { mat c = zero(5); for (int i = 1; i < 4; i++) { c[0][i] = mc::choose(3) + 1; c[i][4] = mc::choose(3); for (int j = 1; j < 4; j++) if (i != j) c[i][j] = mc::choose(2); } terminals(c, 0, 4); }, 9);
    if (mc::thorough()) mc::add("network_6", [] { network(4, {0, 1}, false); }, 16);
    mc::add("network_6_forward", [] { int n = 6; mat c = zero(n); for (int i = 1; i < 5; i++) { c[0][i] = mc::choose(2); c[i][5] = mc::choose(2); for (int j = i + 1; j < 5; j++) c[i][j] = mc::choose(3); } terminals(c, 0, 5); }, 16); // flow must be cancelled on partly used arcs
    mc::add("layered", layered, 8);
    for (int L = 0; L <= 4; L++) for (int R = 0; R <= 5; R++) if (L * R <= 15 || (L == 4 && R == 4)) mc::add("matching_" + std::to_string(L) + "x" + std::to_string(R), [=] { matching(L, R, 1); }, L * R > 8 ? 16 : 1);
    mc::add("matching_5x3", [] { matching(5, 3, 1); }, 16); if (mc::thorough()) mc::add("matching_5x4", [] { matching(5, 4, 1); }, 16);
    mc::add("matching_parallel_2x3", [] { matching(2, 3, 2); }); mc::add("matching_parallel_3x3", [] { matching(3, 3, 2); }, 9);
    mc::add("assign_1", [] { assignment(1, {-3, 0, 2}); }); mc::add("assign_2", [] { assignment(2, {-3, -1, 0, 1, 2, 5}); }); mc::add("assign_3", [] { assignment(3, mc::thorough() ? std::vector<int>{-1, 0, 1, 2} : std::vector<int>{-1, 0, 2}); }, 9);
    mc::add("assign_4", [] { assignment(4, {0, 1}); }, 16);
    mc::add("assign_perm_4", [] { assignment_perm(4); }, 24); mc::add("assign_perm_5", [] { assignment_perm(5); }, 24);
}
