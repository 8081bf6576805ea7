// C13 strongly connected components, transitive closure / reduction, bridges, articulation points, blocks, block-cut tree, 2-SAT.
// MC_BOUNDS: directed: every digraph with up to 3 nodes (loops, up to 2 parallel arcs), 4 nodes with loops, 5 nodes (quick: arcs into node 0 fixed to a chosen single arc; thorough: all 2^20), every DAG on 6 nodes (thorough: 7) under two numberings; undirected: every simple graph up to 6 nodes (thorough 7) in three adjacency orders, and every tree of up to 3 (4) blocks out of {edge, triangle, square, diamond, K4, theta} glued at every vertex, three numberings; 2-SAT: every set of up to 4 (5) clauses over 2 variables and 3 (4) clauses over 3 variables incl. single literal (-1) clauses, with every preassignment; every implication chain of 6 literals closing on itself; listed graphs of 20..120 nodes (12 shapes, 7 numberings) for everything directed and of 20..100 nodes for everything undirected, listed 2-SAT instances of 30..100 variables against the closure of the implications
#include "graphs_big.h"
#include "altruct/algorithm/graph/tarjan_scc.h"
#include "altruct/algorithm/graph/transitive_closure.h"
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/chain_decomposition.h"
#include "altruct/algorithm/graph/sat2.h"
#include <set>
using namespace gr;
static void directed(const mat& m, int orders = 3) {
    int n = (int)m.size(); mat r = reach(m); mc::state(mc::H()(1)(key(m)));
    for (int o = 0; o < orders; o++) {
        auto g = to_graph(m, o); auto scc = tarjan_scc(g); mc::op(); std::vector<int> c(n, -1);
        for (int i = 0; i < (int)scc.size(); i++) { MC_CHECK(!scc[i].empty(), "empty component, %s", show(m).c_str()); for (int u : scc[i]) { MC_CHECK(u >= 0 && u < n && c[u] == -1, "node %d in two components, %s", u, show(m).c_str()); c[u] = i; } }
        for (int u = 0; u < n; u++) { MC_CHECK(c[u] >= 0, "node %d in no component, %s", u, show(m).c_str());
            for (int v = 0; v < n; v++) { bool same = u == v || (r[u][v] && r[v][u]); MC_CHECK((c[u] == c[v]) == same, "components of %d and %d on %s (order %d)", u, v, show(m).c_str(), o); if (m[u][v]) MC_CHECK(c[u] <= c[v], "components are not in topological order: %d>%d on %s", u, v, show(m).c_str()); } }
        auto t = transitive_closure(g); mc::op(); MC_CHECK(t.size() == n, "closure size"); mat tm = zero(n); for (int u = 0; u < n; u++) for (auto& e : t[u]) tm[u][e.v]++;
        for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) { if (u == v) MC_CHECK(tm[u][v] <= r[u][v], "closure of %s has a wrong loop", show(m).c_str()); else MC_CHECK(tm[u][v] == r[u][v], "closure of %s: %d>%d is %d", show(m).c_str(), u, v, tm[u][v]); }
        bool acyclic = true; for (int u = 0; u < n; u++) if (r[u][u]) acyclic = false;
        if (acyclic) { auto q = transitive_reduction(g); mc::op(); MC_CHECK(q.size() == n, "reduction size"); mat qm = zero(n); for (int u = 0; u < n; u++) for (auto& e : q[u]) qm[u][e.v]++;
            for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) { bool ind = false; for (int w = 0; w < n; w++) if (r[u][w] && r[w][v]) ind = true; MC_CHECK(qm[u][v] == (m[u][v] && !ind), "reduction of %s: %d>%d is %d (order %d)", show(m).c_str(), u, v, qm[u][v], o); } }
    }
}
static void dag(int n) { mat m = zero(n); for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) m[v][u] = mc::choose(2); directed(m, 1); std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i & 1 ? n - 1 - i / 2 : i / 2; directed(relabel(m, p), 2); }
typedef std::pair<int, int> pi;
static void undirected_check(const mat& m, int orders = 3) {
    int n = (int)m.size(); mc::state(mc::H()(2)(key(m))); int C = components(m);
    std::set<pi> bridges; std::set<int> cuts; for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) if (m[u][v]) { mat a = m; a[u][v] = a[v][u] = 0; if (components(a) > C) bridges.insert({v, u}); }
    for (int u = 0; u < n; u++) { std::vector<char> sk(n, 0); sk[u] = 1; bool iso = true; for (int v = 0; v < n; v++) if (m[u][v]) iso = false; if (components(m, 0, &sk) > C - (iso ? 1 : 0)) cuts.insert(u); }
    // blocks: two non-bridge edges are equivalent iff no vertex separates them
    std::vector<pi> es; for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) if (m[u][v] && !bridges.count({u, v})) es.push_back({u, v});
    int E = (int)es.size(); std::vector<std::vector<char>> eq(E, std::vector<char>(E, 1));
    { std::vector<int> id; components(m, &id); for (int a = 0; a < E; a++) for (int b = 0; b < E; b++) if (id[es[a].first] != id[es[b].first]) eq[a][b] = 0; }
    for (int x = 0; x < n; x++) { std::vector<char> sk(n, 0); sk[x] = 1; std::vector<int> id; components(m, &id, &sk); auto side = [&](pi e) { return id[e.first == x ? e.second : e.first]; }; for (int a = 0; a < E; a++) for (int b = 0; b < E; b++) if (side(es[a]) != side(es[b])) eq[a][b] = 0; }
    std::multiset<std::set<int>> blocks; std::vector<char> done(E, 0); std::vector<std::set<pi>> bedges; for (int a = 0; a < E; a++) if (!done[a]) { std::set<int> s; std::set<pi> be; for (int b = 0; b < E; b++) if (eq[a][b]) { done[b] = 1; s.insert(es[b].first); s.insert(es[b].second); be.insert(es[b]); } blocks.insert(s); bedges.push_back(be); }
    for (int o = 0; o < orders; o++) {
        auto g = to_graph(m, o); biconnectivity<edge> b(g); mc::op(5); auto d = chain_decomposition(g); std::string G = show(m) + "(order " + std::to_string(o) + ")";
        MC_CHECK(d == b.decomposition, "chain decomposition is not deterministic");
        MC_CHECK((int)d.size() == C, "%d chain components for %d components on %s", (int)d.size(), C, G.c_str());
        std::set<pi> all; std::vector<char> used(bedges.size(), 0); std::vector<int> cid; components(m, &cid); std::set<int> compsSeen;
        for (auto& comp : d) { int cc = -1; for (auto& bi : comp) { std::set<pi> mine; MC_CHECK(!bi.empty(), "empty block on %s", G.c_str());
            for (size_t k = 0; k < bi.size(); k++) { auto& ch = bi[k]; MC_CHECK(ch.size() >= 2, "chain of one vertex on %s", G.c_str()); std::set<int> vs;
                for (size_t i = 0; i < ch.size(); i++) { if (cc < 0) { cc = cid[ch[i]]; MC_CHECK(compsSeen.insert(cc).second, "component listed twice on %s", G.c_str()); } MC_CHECK(cid[ch[i]] == cc, "chain of another component on %s", G.c_str()); if (i + 1 < ch.size() || k) MC_CHECK(vs.insert(ch[i]).second, "chain visits a vertex twice on %s", G.c_str());
                    if (i) { MC_CHECK(m[ch[i - 1]][ch[i]], "chain uses a non-edge %d-%d on %s", ch[i - 1], ch[i], G.c_str()); pi e = std::minmax(ch[i - 1], ch[i]); MC_CHECK(all.insert(e).second, "edge %d-%d is in two chains on %s", e.first, e.second, G.c_str()); mine.insert(e); } }
                MC_CHECK((ch.front() == ch.back()) == (k == 0), "chain %d of a block is%s a cycle on %s", (int)k, k ? "" : " not", G.c_str()); }
            bool f = false; for (size_t i = 0; i < bedges.size(); i++) if (!used[i] && bedges[i] == mine) { used[i] = 1; f = true; break; } MC_CHECK(f, "chains of a block do not make up a biconnected component on %s", G.c_str()); } }
        for (char c : used) MC_CHECK(c, "biconnected component without chains on %s", G.c_str());
        auto ce = cut_edges(g, d); std::set<pi> cs; for (auto& e : ce) MC_CHECK(cs.insert(std::minmax(e.u, e.v)).second, "bridge listed twice"); MC_CHECK(cs == bridges && b.cut_edges.size() == ce.size(), "bridges of %s", G.c_str());
        auto cv = cut_vertices(g, d, ce); MC_CHECK(std::set<int>(cv.begin(), cv.end()) == cuts && cv.size() == cuts.size() && b.cut_vertices == cv, "cut vertices of %s are %s", G.c_str(), mc::show(cv).c_str());
        auto bc = biconnected_components(g, d); std::multiset<std::set<int>> bs; for (auto& x : bc) { std::set<int> s(x.begin(), x.end()); MC_CHECK(s.size() == x.size(), "block lists a vertex twice on %s: %s", G.c_str(), mc::show(x).c_str()); bs.insert(s); } MC_CHECK(bs == blocks && b.components == bc, "biconnected components of %s", G.c_str());
        auto& t = b.block_cut_tree; auto& idx = b.bc_tree_idx; int B = (int)bc.size(), A = (int)cv.size(), L = 0;
        MC_CHECK((int)idx.size() == n, "block-cut map size"); std::set<int> leaf; for (int u = 0; u < n; u++) { int p = (int)(std::find(cv.begin(), cv.end(), u) - cv.begin()); int deg = (int)g[u].size();
            if (p < A) MC_CHECK(idx[u] == B + p, "cut vertex %d maps to %d on %s", u, idx[u], G.c_str());
            else if (deg <= 1) { L++; MC_CHECK(idx[u] >= B + A && leaf.insert(idx[u]).second, "leaf %d maps to %d on %s", u, idx[u], G.c_str()); }
            else MC_CHECK(idx[u] >= 0 && idx[u] < B && std::count(bc[idx[u]].begin(), bc[idx[u]].end(), u), "vertex %d maps to %d on %s", u, idx[u], G.c_str()); }
        MC_CHECK(t.size() == B + A + L, "block-cut tree has %d nodes on %s", t.size(), G.c_str()); mat tm = zero(t.size()), x = tm; for (int u = 0; u < t.size(); u++) for (auto& e : t[u]) tm[u][e.v]++;
        for (int i = 0; i < B; i++) for (int v : bc[i]) if (cuts.count(v)) x[i][idx[v]]++, x[idx[v]][i]++; for (auto& e : ce) x[idx[e.u]][idx[e.v]]++, x[idx[e.v]][idx[e.u]]++;
        MC_CHECK(tm == x, "block-cut tree edges on %s: %s expected %s", G.c_str(), show(tm).c_str(), show(x).c_str()); MC_CHECK(t.num_edges() == 2 * (t.size() - C), "block-cut graph of %s is not a forest", G.c_str());
    }
}
static void block_tree(int blocks) {
    static const std::vector<std::pair<int, std::vector<pi>>> kinds = {{2, {{0, 1}}}, {3, {{0, 1}, {1, 2}, {2, 0}}}, {4, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}}, {4, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 2}}}, {4, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 2}, {1, 3}}}, {5, {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 0}, {1, 3}}}};
    int n = 1; std::vector<pi> es; for (int k = 0; k < blocks; k++) { int at = mc::choose(n), t = mc::choose((int)kinds.size()), rot = t == 3 ? mc::choose(2) : t == 5 ? mc::choose(5) : 0; auto& b = kinds[t]; std::vector<int> id(b.first); for (int i = 0; i < b.first; i++) id[(i + rot) % b.first] = i ? n++ : at; for (auto e : b.second) es.push_back({id[e.first], id[e.second]}); }
    mat m = zero(n); for (auto e : es) m[e.first][e.second] = m[e.second][e.first] = 1;
    for (int v = 0; v < mc::tier(blocks > 2 ? 2 : 3, 3); v++) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = v == 0 ? i : v == 1 && mc::thorough() ? n - 1 - i : (i & 1 ? n - 1 - i / 2 : i / 2); undirected_check(relabel(m, p), v == 0 ? mc::tier(2, 3) : 1); }
}
// ---- 2-SAT
typedef std::vector<pi> cls;
static void sat(const cls& c, int nv, bool pre) {
    int used = 0; for (auto& t : c) for (int l : {t.first, t.second}) if (l >= 0) used = std::max(used, l / 2 + 1);
    auto holds = [&](int a) { for (auto& t : c) { auto lit = [&](int l) { return l >= 0 && (a >> l / 2 & 1) == (l & 1); }; if (!lit(t.first) && !lit(t.second)) return false; } return true; };
    auto str = [&] { std::string s; for (auto& t : c) s += "(" + std::to_string(t.first) + "," + std::to_string(t.second) + ")"; return s; };
    mc::H h; h(3); for (auto& t : c) h(t.first)(t.second); mc::state(h);
    int P = 1; if (pre) for (int i = 0; i < nv; i++) P *= 3;
    for (int p = 0; p < P; p++) {
        std::vector<int> sol; bool ok = false; { int q = p; if (pre) for (int i = 0; i < nv; i++, q /= 3) sol.push_back(q % 3 - 1); } auto given = sol; if (p == 0 && pre) sol.clear(), given.clear();
        for (int a = 0; a < 1 << nv && !ok; a++) { bool resp = true; for (size_t i = 0; i < given.size(); i++) if (given[i] >= 0 && given[i] != (a >> i & 1)) resp = false; ok = resp && holds(a); }
        bool r = sat2(sol, c); mc::op(); MC_CHECK(r == ok, "2-SAT %s with %s: %s", str().c_str(), mc::show(given).c_str(), r ? "satisfied" : "unsatisfiable");
        if (r) { MC_CHECK((int)sol.size() >= used, "solution has %d values", (int)sol.size()); int a = 0; for (size_t i = 0; i < sol.size(); i++) { if ((int)i < used) MC_CHECK(sol[i] == 0 || sol[i] == 1, "variable %d unassigned in %s", (int)i, str().c_str()); if (i < given.size() && given[i] >= 0) MC_CHECK(sol[i] == given[i], "preassigned variable changed, %s", str().c_str()); if (sol[i] == 1) a |= 1 << i; } MC_CHECK(holds(a), "2-SAT %s with %s: %s is no solution", str().c_str(), mc::show(given).c_str(), mc::show(sol).c_str()); }
        if (p == 0) { auto s2 = sat2(c); if (!c.empty()) { MC_CHECK(s2.empty() == !ok, "sat2(clauses) of %s", str().c_str()); if (ok) { int a = 0; for (size_t i = 0; i < s2.size(); i++) if (s2[i] == 1) a |= 1 << i; MC_CHECK((int)s2.size() >= used && holds(a), "sat2(clauses) of %s is no solution", str().c_str()); } } }
    }
}
static void sat_sets(int nv, int k, bool pre) { // non-decreasing sequences of clauses; both literal orders over all executions
    int L = 2 * nv; std::vector<pi> u; for (int a = -1; a < L; a++) for (int b = -1; b < L; b++) u.push_back({a, b}); int from = 0; cls c; int cnt = mc::choose(k + 1);
    for (int i = 0; i < cnt; i++) { from += mc::choose((int)u.size() - from); c.push_back(u[from]); } sat(c, nv, pre); if (c.size() > 1) { std::reverse(c.begin(), c.end()); sat(c, nv, false); }
}
static void sat_chain() { int nv = 4; cls c; int k = mc::tier(5, 6), cur = mc::choose(2 * nv), first = cur; for (int i = 0; i < k; i++) { int nx = i + 1 == k ? first ^ mc::choose(2) : mc::choose(2 * nv); c.push_back({cur ^ 1, nx}); cur = nx; } sat(c, nv, false); }
static void large_directed() { static const int N[] = {20, 50, 80, 120}; int n = N[mc::choose(4)], shape = mc::choose(NBIG), num = mc::choose(lg::NORDERS), k = mc::choose(2); mc::trace("%d nodes, shape %d, numbering %d, variant %d", n, shape, num, k); mat m = big(n, shape, true, num); if (k) { std::vector<int> p = lg::order(n, (num + 3) % lg::NORDERS); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (p[u] >= p[v]) m[u][v] = 0; } else for (int u = 0; u < n; u += 7) { m[u][u] = 1; for (int& x : m[u]) if (x) x = 2; } directed(m, num % 3 == 0 ? 3 : 1); }
static void large_undirected() { static const int N[] = {20, 37, 60, 100}; int n = N[mc::choose(4)], shape = mc::choose(NBIG), num = mc::choose(lg::NORDERS); mc::trace("%d nodes, shape %d, numbering %d", n, shape, num); if (shape == 6 && n > 37) return; undirected_check(big(n, shape, false, num), num % 3 == 0 ? 3 : 1); }
static void large_sat() { // satisfiable iff no variable implies its negation and back
    static const int N[] = {30, 60, 100}; int nv = N[mc::choose(3)], kind = mc::choose(6), seed = mc::choose(mc::tier(10, 60)); mc::trace("%d variables, kind %d, member %d", nv, kind, seed); mc::state(mc::H()(9)(nv)(kind)(seed)); lg::Lcg g(nv * 100 + kind * 17 + seed); cls c; std::vector<int> plant(nv); for (int& x : plant) x = g.below(2);
    int cnt = kind == 0 ? nv : kind == 1 ? nv + nv / 4 * (seed % 3) : 2 * nv; if (kind == 3) { for (int i = 0; i < nv; i++) { int a = 2 * i + plant[i], b = 2 * ((i + 1) % nv) + plant[(i + 1) % nv]; c.push_back({a ^ 1, b}); } if (seed % 2) c.push_back({2 * (seed % nv) + (plant[seed % nv] ^ (seed / 2 % 2)), -1}); if (seed % 3 == 0) c.push_back({2 * (seed % nv) + !plant[seed % nv], 2 * (nv / 2) + !plant[nv / 2]}); } else while ((int)c.size() < cnt) { int a = g.below(2 * nv), b = g.below(2 * nv); if (kind >= 4 && (a & 1) != plant[a / 2] && (b & 1) != plant[b / 2]) a ^= 1; if (kind == 5 && g.below(8) == 0) { a = 2 * (a / 2) + plant[a / 2]; b = -1; } c.push_back(g.below(2) ? pi(a, b) : pi(b, a)); }
    int L = 2 * nv; mat im = zero(L); for (auto& t : c) { int a = t.first, b = t.second; if (a < 0) a = b; if (b < 0) b = a; if (a < 0) continue; im[a ^ 1][b] = 1; im[b ^ 1][a] = 1; } mat r = reach(im); for (int i = 0; i < L; i++) r[i][i] = 1; bool ok = true; for (int i = 0; i < nv; i++) if (r[2 * i][2 * i + 1] && r[2 * i + 1][2 * i]) ok = false; int used = 0; for (auto& t : c) used = std::max(used, std::max(t.first, t.second) / 2 + 1);
    for (int pre = 0; pre < 4; pre++) { std::vector<int> sol(pre ? nv : 0, -1), given; bool want = ok; if (pre) { for (int k = 0; k < (pre == 1 ? 1 : nv / (8 - pre)); k++) { int i = g.below(nv); sol[i] = pre == 3 ? plant[i] : g.below(2); } given = sol; for (int i = 0; i < nv; i++) if (given[i] >= 0) for (int j = 0; j < nv; j++) { if (given[j] >= 0 && r[2 * i + given[i]][2 * j + (given[j] ^ 1)]) want = false; if (r[2 * i + given[i]][2 * j] && r[2 * i + given[i]][2 * j + 1]) want = false; } }
        if (pre && want) { /* the consequences of the given values must not contradict each other */ std::vector<char> v(L, 0); for (int i = 0; i < nv; i++) if (given[i] >= 0) for (int l = 0; l < L; l++) if (r[2 * i + given[i]][l]) v[l] = 1; for (int i = 0; i < nv; i++) if (v[2 * i] && v[2 * i + 1]) want = false; }
        bool got = sat2(sol, c); mc::op(); MC_CHECK(got == want, "2-SAT with %d variables and %d clauses (%d values given): %s", nv, (int)c.size(), pre, got ? "satisfied" : "unsatisfiable"); if (!got) continue; MC_CHECK((int)sol.size() >= used, "size of the solution"); for (int i = 0; i < used; i++) { MC_CHECK(sol[i] == 0 || sol[i] == 1, "variable %d unassigned", i); MC_CHECK(!pre || given[i] < 0 || sol[i] == given[i], "given variable %d changed", i); } for (auto& t : c) { auto h = [&](int l) { return l >= 0 && sol[l / 2] == (l & 1); }; MC_CHECK(h(t.first) || h(t.second), "clause (%d,%d) does not hold", t.first, t.second); } } }
MC_SETUP(all) {
    mc::add("large_directed", large_directed, 36); mc::add("large_undirected", large_undirected, 36); mc::add("large_sat", large_sat, 18);
    for (int n = 0; n <= 3; n++) mc::add("digraph_" + std::to_string(n), [n] { directed(gr::digraph(n, true, 2)); }, n == 3 ? 9 : 1);
    mc::add("digraph_4", [] { directed(gr::digraph(4, true)); }, 16);
    mc::add("digraph_5", [] { mat m = zero(5); int only = mc::thorough() ? -1 : mc::choose(5); for (int u = 0; u < 5; u++) for (int v = 0; v < 5; v++) if (u != v) m[u][v] = (only >= 0 && v == 0) ? u == only : mc::choose(2); directed(m, 1); }, 20);
    mc::add("dag_5", [] { dag(5); }); mc::add("dag_6", [] { dag(6); }, 16); if (mc::thorough()) mc::add("dag_7", [] { dag(7); }, 16);
    for (int n = 0; n <= 5; n++) mc::add("undirected_" + std::to_string(n), [n] { undirected_check(gr::undirected(n)); });
    mc::add("undirected_6", [] { undirected_check(gr::undirected(6)); }, 16); if (mc::thorough()) mc::add("undirected_7", [] { undirected_check(gr::undirected(7), 1); }, 32);
    for (int b = 1; b <= mc::tier(3, 4); b++) mc::add("block_tree_" + std::to_string(b), [b] { block_tree(b); }, b > 2 ? 36 : 1);
    mc::add("sat_1", [] { sat_sets(1, 5, true); }); mc::add("sat_2", [] { sat_sets(2, mc::tier(3, 4), true); }, 4); mc::add("sat_3", [] { sat_sets(3, mc::tier(2, 3), true); }, 3); mc::add("sat_3_more", [] { sat_sets(3, mc::tier(3, 4), false); }, 4);
    mc::add("sat_chain", sat_chain, 8);
}
