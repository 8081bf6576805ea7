// C15 chromatic polynomials against counting proper colourings.
// MC_BOUNDS: every simple graph with up to 6 nodes (thorough 7) in up to three adjacency orders, over 64-bit integers and over residues modulo 1009 and 7; every graph with 7 nodes whose complement is a forest-like set of up to 5 (7) chosen edges (dense), every cycle with pendant trees and up to 2 (4) extra edges on 7 nodes; closed forms for trees, cycles and complete graphs up to 12 nodes; every k from 0 to n + 2
// MC_DESIGN: the oracle counts partitions into independent sets by subset DP, hence the number of proper colourings for every k exactly
#include "graphs.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/polynom.h"
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/chain_decomposition.h"
#include "altruct/algorithm/graph/chromatic_polynomial.h"
using namespace gr; typedef long long ll; typedef altruct::math::modulo<int, 1009> mod; typedef altruct::math::modulo<int, 7> mod7;
static std::vector<ll> partitions(const mat& m) { // number of partitions of the nodes into j non-empty independent sets
    int n = (int)m.size(); std::vector<char> ind(1 << n, 1); for (int S = 0; S < 1 << n; S++) for (int u = 0; u < n && ind[S]; u++) if (S >> u & 1) for (int v = 0; v < u; v++) if ((S >> v & 1) && m[u][v]) ind[S] = 0;
    std::vector<std::vector<ll>> f(1 << n, std::vector<ll>(n + 1, 0)); f[0][0] = 1; for (int S = 1; S < 1 << n; S++) { int low = S & -S; for (int T = S; T; T = (T - 1) & S) if ((T & low) && ind[T]) for (int j = 0; j < n; j++) f[S][j + 1] += f[S ^ T][j]; } return f[(1 << n) - 1];
}
static ll count(const std::vector<ll>& f, int k) { ll r = 0; for (int j = 0; j < (int)f.size(); j++) { ll t = f[j]; for (int i = 0; i < j; i++) t *= k - i; r += t; } return r; }
static void check(const mat& m, int orders, bool mods = true) {
    int n = (int)m.size(); mc::state(mc::H()(n)(key(m))); auto f = partitions(m);
    for (int o = 0; o < orders; o++) { auto g = to_graph(m, o);
        auto p = altruct::graph::chromatic_polynomial<ll>(g); mc::op();
        for (int k = 0; k <= n + 2; k++) { ll v = p.eval<ll>(k); MC_CHECK(v == count(f, k), "%d nodes, %s: %lld colourings with %d colours, expected %lld", n, show(m).c_str(), v, k, count(f, k)); }
        if (mods && o == 0) { auto q = altruct::graph::chromatic_polynomial<mod>(g); auto q7 = altruct::graph::chromatic_polynomial<mod7>(g); mc::op(2); for (int k = 0; k <= n + 2; k++) { MC_CHECK(q.eval<mod>(mod(k)).v == count(f, k) % 1009, "modulo 1009 at %d of %s", k, show(m).c_str()); MC_CHECK(q7.eval<mod7>(mod7(k)).v == count(f, k) % 7, "modulo 7 at %d of %s", k, show(m).c_str()); } }
    }
}
static void dense(int n, int k) { mat m(n, std::vector<int>(n, 1)); for (int u = 0; u < n; u++) m[u][u] = 0; int from = 0, E = n * (n - 1) / 2; std::vector<std::pair<int, int>> es; for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) es.push_back({u, v}); for (int i = 0; i < k && from < E; i++) { int c = mc::choose(E - from + 1); if (c == E - from) break; from += c; m[es[from].first][es[from].second] = m[es[from].second][es[from].first] = 0; from++; } check(m, 1); }
static void sparse(int n, int k) { // a cycle with k chords or pendant edges
    mat m = zero(n); int c = 3 + mc::choose(n - 2); for (int i = 0; i < c; i++) { int j = (i + 1) % c; m[i][j] = m[j][i] = 1; } for (int i = c; i < n; i++) { int p = mc::choose(i + 1); if (p < i) m[i][p] = m[p][i] = 1; } int from = 0, E = n * (n - 1) / 2; std::vector<std::pair<int, int>> es; for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) es.push_back({u, v}); for (int i = 0; i < k && from < E; i++) { int x = mc::choose(E - from + 1); if (x == E - from) break; from += x; m[es[from].first][es[from].second] = m[es[from].second][es[from].first] = 1; from++; } check(m, 1, false); }
static void closed() {
    int n = 1 + mc::choose(12), k0 = 0; mat t = zero(n), c = zero(n), K = zero(n);
    auto T = altruct::graph::chromatic_polynomial_T<ll>(n), KK = altruct::graph::chromatic_polynomial_K<ll>(n); auto Tm = altruct::graph::chromatic_polynomial_T<mod>(n), Km = altruct::graph::chromatic_polynomial_K<mod>(n); mc::op(4); mc::state(n);
    auto CC = n >= 3 ? altruct::graph::chromatic_polynomial_C<ll>(n) : T; auto K0 = altruct::graph::chromatic_polynomial_K<ll>(0);
    for (int k = k0; k <= 14; k++) { ll x = k, y = 1, z = 1; for (int i = 1; i < n; i++) x *= k - 1; for (int i = 0; i < n; i++) y *= k - i, z *= k - 1; z += (n & 1) ? -(k - 1) : k - 1; bool same = n < 3 || true; (void)same;
        MC_CHECK(T.eval<ll>(k) == x && (Tm.eval<mod>(mod(k)).v - x) % 1009 == 0, "tree with %d nodes at %d", n, k); if (std::abs((double)KK[0]) < 4e18) MC_CHECK(KK.eval<ll>(k) == y && (Km.eval<mod>(mod(k)).v - y) % 1009 == 0, "complete graph with %d nodes at %d", n, k); if (n >= 3) MC_CHECK(CC.eval<ll>(k) == z, "cycle with %d nodes at %d", n, k); MC_CHECK(K0.eval<ll>(k) == 1, "empty complete graph"); }
}
MC_SETUP(all) {
    for (int n = 0; n <= 5; n++) mc::add("graphs_" + std::to_string(n), [n] { check(gr::undirected(n), 3); });
    mc::add("graphs_6", [] { check(gr::undirected(6), mc::tier(2, 3), mc::thorough()); }, 16); if (mc::thorough()) mc::add("graphs_7", [] { check(gr::undirected(7), 1, false); }, 32);
    mc::add("dense_7", [] { dense(7, mc::tier(5, 7)); }, 16); mc::add("sparse_7", [] { sparse(7, mc::tier(2, 4)); }, 15); mc::add("closed", closed);
}
