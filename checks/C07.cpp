// C07 link-cut tree and disjoint set against explicit forests / partitions.
// MC_BOUNDS: link-cut tree: every history of add/link/cut/set value/find_root/find_parent/find_lca/depth/get/traverse of 4 (quick) / 5 (thorough) operations on 5 nodes (nodes renamed by first use), and from every forest with up to 6 (7) nodes: two queries, a modification, a query, then all queries in two orders; path aggregate is the free monoid (concatenation); disjoint set: every history of unite/find/add_count/clear with growth of 4 / 5 operations on 4 / 5 elements; every balanced merge tree of 8 elements; listed large trees (path, star, caterpillar, binary, broom, random shapes of 30..1000 nodes) through listed link/cut/query histories, partitions of 100..1000 elements
// MC_ASSUME: node names carry no meaning for the structures (histories are explored up to renaming of nodes that were not used yet)
#include "mc.h"
#include "large.h"
#include "altruct/structure/container/link_cut_tree.h"
#include "altruct/structure/graph/disjoint_set.h"
#include <algorithm>
using altruct::container::link_cut_tree; using altruct::graph::disjoint_set;
struct V { char own; std::string agg; V(char c = 0) : own(c), agg(c ? std::string(1, c) : std::string()) {} };
static void up(V& p, const V& l, const V& r) { std::string s = l.agg; if (p.own) s += p.own; s += r.agg; p.agg = s; }
typedef link_cut_tree<V, void (*)(V&, const V&, const V&)> LCT;
struct forest {
    std::vector<int> par; std::vector<char> own;
    forest() : par(1, 0), own(1, 0) {}
    int n() const { return (int)par.size() - 1; }
    int root(int u) const { while (par[u]) u = par[u]; return u; }
    int depth(int u) const { int d = 0; while (par[u]) u = par[u], d++; return d; }
    std::string path(int u) const { std::string s; for (; u; u = par[u]) s += own[u]; std::reverse(s.begin(), s.end()); return s; }
    int at_depth(int u, int d) const { for (int k = depth(u); k > d; k--) u = par[u]; return u; }
    int lca(int a, int b) const { if (root(a) != root(b)) return 0; int x = depth(a), y = depth(b); while (x > y) a = par[a], x--; while (y > x) b = par[b], y--; while (a != b) a = par[a], b = par[b]; return a; }
};
enum { Q_ROOT, Q_PARENT, Q_DEPTH, Q_GET, Q_TRAV, NQ };
static void query(LCT& t, const forest& f, int q, int u) {
    switch (q) {
    case Q_ROOT: { int r = t.find_root(u); MC_CHECK(r == f.root(u), "find_root(%d)=%d, expected %d", u, r, f.root(u)); break; }
    case Q_PARENT: { int r = t.find_parent(u); MC_CHECK(r == f.par[u], "find_parent(%d)=%d, expected %d", u, r, f.par[u]); break; }
    case Q_DEPTH: { int r = t.depth(u); MC_CHECK(r == f.depth(u), "depth(%d)=%d, expected %d", u, r, f.depth(u)); break; }
    case Q_GET: { std::string r = t.get(u).agg; MC_CHECK(r == f.path(u), "path aggregate of %d is '%s', expected '%s'", u, r.c_str(), f.path(u).c_str()); break; }
    case Q_TRAV: { int d = f.depth(u); for (int k = 0; k <= d; k++) { // locate the ancestor at depth k through the auxiliary tree
        std::string whole = f.path(u); bool bad = false; int steps = 0;
        int r = t.traverse(u, [&](const V& v, const V& l, const V& rr, int dep) { if (dep < 0 || dep > d || whole[dep] != v.own || ++steps > d + 1 || whole.compare(dep - std::min<int>(dep, l.agg.size()), l.agg.size(), l.agg) != 0 || whole.compare(dep + 1, rr.agg.size(), rr.agg) != 0) { bad = true; return 0; } return dep < k ? 1 : dep > k ? -1 : 0; });
        MC_CHECK(!bad && r == f.at_depth(u, k), "traverse(%d) to depth %d: %d, expected %d", u, k, r, f.at_depth(u, k)); } break; }
    }
    mc::op();
}
static void lca(LCT& t, const forest& f, int a, int b) { int r = t.find_lca(a, b); MC_CHECK(r == f.lca(a, b), "find_lca(%d,%d)=%d, expected %d", a, b, r, f.lca(a, b)); mc::op(); }
static void all(LCT& t, const forest& f, bool rev) {
    int n = f.n(); MC_CHECK(t.size() == n, "size"); mc::H k; for (int i = 1; i <= n; i++) k(f.par[i])(f.own[i]); mc::state(k);
    for (int i = 1; i <= n; i++) { int u = rev ? n + 1 - i : i; for (int q = 0; q < NQ; q++) query(t, f, rev ? NQ - 1 - q : q, u); for (int j = 1; j <= n; j++) { int v = rev ? j : n + 1 - j; if (u != v || rev) lca(t, f, u, v); } }
}
struct names { int n, used; int pick() { int k = 1 + mc::choose(std::min(n, used + 1)); used = std::max(used, k); return k; } };
static bool modify(LCT& t, forest& f, names& nm, int o, int step) { // false: not applicable here
    int u = nm.pick();
    if (o == 0) { int v = nm.pick(); if (f.par[u] || f.root(v) == u) return false; mc::trace("link %d under %d", u, v); t.link(u, v); f.par[u] = v; }
    else if (o == 1) { mc::trace("cut %d", u); t.cut(u); f.par[u] = 0; }
    else { char c = 'A' + step; mc::trace("value of %d = %c", u, c); t.get(u).own = c; f.own[u] = c; }
    mc::op(); return true;
}
static void start(LCT& t, forest& f, int n) { for (int i = 1; i <= n; i++) { f.par.push_back(0); f.own.push_back('a' + i - 1); } (void)t; }
MC_SCENARIO(lct_history, 40) {
    int n = 5, depth = mc::tier(4, 5); std::vector<V> init; for (int i = 0; i < n - 1; i++) init.push_back(V('a' + i));
    LCT t(init.begin(), init.end(), up, V()); forest f; start(t, f, n - 1); int added = t.add(V('a' + n - 1)); f.par.push_back(0); f.own.push_back('a' + n - 1); MC_CHECK(added == n, "add returned %d", added);
    names nm{n, 0};
    for (int i = 0; i < depth; i++) {
        int o = mc::choose(11);
        if (o == 0) break;
        if (o <= 3) { if (!modify(t, f, nm, o - 1, i)) return; }
        else if (o < 4 + NQ) { int u = nm.pick(); mc::trace("query %d of %d", o - 4, u); query(t, f, o - 4, u); }
        else if (o == 9) { int u = nm.pick(), v = nm.pick(); mc::trace("lca %d %d", u, v); lca(t, f, u, v); }
        else { if (f.n() >= 6) return; int k = t.add(V('z')); f.par.push_back(0); f.own.push_back('z'); MC_CHECK(k == f.n(), "add"); nm.n = f.n(); mc::trace("add"); mc::op(); }
    }
    all(t, f, false); all(t, f, true);
}
MC_SETUP(forests) {
    for (int n = 2; n <= mc::tier(6, 7); n++) mc::add("lct_from_forest_" + std::to_string(n), [n] {
        LCT t((size_t)n, up, V()); forest f; start(t, f, n);
        for (int i = 1; i <= n; i++) t.get(i).own = f.own[i];
        int rev = mc::choose(2); for (int i = 2; i <= n; i++) f.par[i] = mc::choose(i); // 0: root
        for (int k = 2; k <= n; k++) { int i = rev ? n + 2 - k : k; if (f.par[i]) t.link(i, f.par[i]); }
        names nm{n, n};
        int nq = mc::tier(n <= 4 ? 2 : n <= 5 ? 1 : 0, n <= 5 ? 3 : 2);
        for (int k = 0; k < nq; k++) { int a = nm.pick(), q = mc::choose(2); if (q == 0) query(t, f, Q_DEPTH, a); else query(t, f, Q_ROOT, a); mc::trace("access %d", a); }
        if (!modify(t, f, nm, mc::choose(3), 0)) return;
        int a = nm.pick(); query(t, f, Q_GET, a);
        all(t, f, false); all(t, f, true);
    }, n >= 5 ? 10 : 2);
    // long chains and brooms: rotations at every depth
    for (int n : {8, 12, 20}) mc::add("lct_chain_" + std::to_string(n), [n] {
        std::vector<V> init; for (int i = 0; i < n; i++) init.push_back(V('a' + i)); LCT t(init.begin(), init.end(), up, V()); forest f; start(t, f, n);
        int b = 1 + mc::choose(n), dir = mc::choose(2); // chain, with the nodes after b hanging off node b/2 (broom)
        for (int i = 2; i <= n; i++) f.par[i] = i <= b ? i - 1 : std::max(1, b / 2); for (int k = 2; k <= n; k++) { int i = dir ? n + 2 - k : k; t.link(i, f.par[i]); }
        int x = 1 + mc::choose(n), y = 1 + mc::choose(n); query(t, f, Q_DEPTH, x); query(t, f, Q_GET, y); int c = 1 + mc::choose(n); t.cut(c); f.par[c] = 0; query(t, f, Q_ROOT, y);
        for (int i = 1; i <= n; i++) { query(t, f, Q_GET, i); query(t, f, Q_PARENT, i); } lca(t, f, x, y); lca(t, f, y, x); mc::state(mc::hash(n, b, c));
    }, n > 8 ? 8 : 1);
}
struct part { std::vector<int> c; std::vector<size_t> cnt; void grow(size_t n) { while (c.size() < n) { c.push_back((int)c.size()); cnt.push_back(1); } } // class label, count per label
    bool unite(int x, int y) { grow(std::max(x, y) + 1); int a = c[x], b = c[y]; if (a == b) return false; for (int& z : c) if (z == b) z = a; cnt[a] += cnt[b]; return true; }
    size_t distinct() const { size_t d = 0; for (size_t i = 0; i < c.size(); i++) d += std::find(c.begin(), c.begin() + i, c[i]) == c.begin() + i; return d; } };
static void ds_verify(disjoint_set d, part p) {
    size_t n = p.c.size(); MC_CHECK(d.size() == n, "size %d, expected %d", (int)d.size(), (int)n); MC_CHECK(d.distinct() == p.distinct(), "distinct %d, expected %d", (int)d.distinct(), (int)p.distinct());
    for (int pass = 0; pass < 2; pass++) for (size_t i = 0; i < n; i++) {
        size_t r = d.find(i); MC_CHECK(r < n && p.c[r] == p.c[i], "find(%d)=%d is not in its class", (int)i, (int)r);
        MC_CHECK(d.count(i) == p.cnt[p.c[i]], "count(%d)=%d, expected %d", (int)i, (int)d.count(i), (int)p.cnt[p.c[i]]);
        for (size_t j = 0; j < i; j++) MC_CHECK((d.find(j) == d.find(i)) == (p.c[i] == p.c[j]), "find(%d)/find(%d) disagree with the partition", (int)i, (int)j);
    }
    MC_CHECK(d.size() == n && d.distinct() == p.distinct(), "queries changed the partition"); mc::op();
    mc::state(mc::H().range(p.c));
}
// large forests: listed shapes, orders and histories; the aggregate is the (non-commutative) polynomial hash of the path
struct W { uint64_t own, h, pw; int len; W(uint64_t c = 0) : own(c), h(c), pw(c ? 1000003 : 1), len(c != 0) {} };
static void wup(W& p, const W& l, const W& r) { uint64_t m = p.own ? 1000003 : 1; p.h = (l.h * m + p.own) * r.pw + r.h; p.pw = l.pw * m * r.pw; p.len = l.len + (p.own != 0) + r.len; }
typedef link_cut_tree<W, void (*)(W&, const W&, const W&)> LLCT;
static void large_lct() {
    static const int N[] = {30, 100, 300, 1000}; int n = N[mc::choose(4)], shape = mc::choose(7), ord = mc::choose(lg::NORDERS); mc::trace("%d nodes, shape %d, linked in order %d", n, shape, ord); mc::state(mc::H()(n)(shape)(ord)); lg::Lcg g(n * 50 + shape * 7 + ord);
    std::vector<int> name = lg::order(n, (ord + shape) % lg::NORDERS), par(n + 1, 0), idx; std::vector<uint64_t> own(n + 1); for (int i = 1; i <= n; i++) own[i] = 1 + g.below(1000);
    auto nm = [&](int i) { return name[i - 1] + 1; }; // the i-th node of the shape
    for (int i = 2; i <= n; i++) { int p = shape == 0 ? i - 1 : shape == 1 ? 1 : shape == 2 ? (i % 2 ? i - 2 : std::max(1, i - 1)) : shape == 3 ? i / 2 : shape == 4 ? (i <= n / 2 ? i - 1 : n / 4 + 1) : shape == 5 ? 1 + g.below(i - 1) : std::max(1, i - 1 - g.below(5)); par[nm(i)] = nm(p); }
    if (n % 7 == 2) par[nm(n / 3)] = 0;
    std::vector<W> init; for (int i = 1; i < n; i++) init.push_back(W(own[i])); LLCT t(init.begin(), init.end(), wup, W()); int added = t.add(W(own[n])); MC_CHECK(added == n && t.size() == n, "add");
    for (int i : lg::order(n, ord)) if (par[i + 1]) t.link(i + 1, par[i + 1]);
    auto anc = [&](int u) { std::vector<int> v; for (; u; u = par[u]) v.push_back(u); std::reverse(v.begin(), v.end()); return v; };
    auto same = [&](int u, int q) { std::vector<int> a = anc(u); mc::op(); if (q & 1) { int r = t.find_root(u); MC_CHECK(r == a[0], "find_root(%d)=%d, expected %d", u, r, a[0]); } if (q & 2) { int r = t.depth(u); MC_CHECK(r == (int)a.size() - 1, "depth(%d)=%d, expected %d", u, r, (int)a.size() - 1); } if (q & 4) { int r = t.find_parent(u); MC_CHECK(r == par[u], "find_parent(%d)=%d, expected %d", u, r, par[u]); }
        if (q & 8) { uint64_t h = 0; for (int x : a) h = h * 1000003 + own[x]; const W& w = t.get(u); MC_CHECK(w.h == h && w.len == (int)a.size() && w.own == own[u], "aggregate of the path of %d nodes to %d is wrong", (int)a.size(), u); }
        if (q & 16) { int k = g.below((int)a.size()), steps = 0; int r = t.traverse(u, [&](const W& v, const W&, const W&, int dep) { if (dep < 0 || dep >= (int)a.size() || own[a[dep]] != v.own || ++steps > (int)a.size()) return 0; return dep < k ? 1 : dep > k ? -1 : 0; }); MC_CHECK(r == a[k], "traverse(%d) to depth %d: %d, expected %d", u, k, r, a[k]); } };
    auto lca2 = [&](int u, int v) { std::vector<int> a = anc(u), b = anc(v); int e = 0; for (size_t i = 0; i < a.size() && i < b.size() && a[i] == b[i]; i++) e = a[i]; int r = t.find_lca(u, v); mc::op(); MC_CHECK(r == e, "find_lca(%d,%d)=%d, expected %d", u, v, r, e); };
    for (int i : lg::order(n, (ord + 3) % lg::NORDERS)) if (n < 200 || i % 4 == 0) same(i + 1, 31);
    for (int step = 0; step < 3 * n / 2; step++) { int u = 1 + g.below(n), v = 1 + g.below(n), o = g.below(8); if (o <= 1) { t.cut(u); par[u] = 0; } else if (o <= 4) { if (par[u]) { std::vector<int> a = anc(v); if (std::find(a.begin(), a.end(), u) != a.end()) continue; t.cut(u); par[u] = 0; } std::vector<int> a = anc(v); if (a[0] != u) { t.link(u, v); par[u] = v; } } else if (o == 5) { uint64_t c = 1 + g.below(1000); t.get(u).own = c; own[u] = c; } else lca2(u, v); mc::op(); same(step % 2 ? u : v, 1 << g.below(5)); }
    for (int i = 1; i <= n; i += n < 200 ? 1 : 3) { same(i, 31); lca2(i, 1 + g.below(n)); lca2(1 + g.below(n), i); }
}
static void large_sets() {
    static const int N[] = {100, 333, 1000}; int n = N[mc::choose(3)], kind = mc::choose(6), grown = mc::choose(2), o = mc::choose(lg::NORDERS); mc::trace("%d elements, kind %d, order %d", n, kind, o); mc::state(mc::H()(n)(kind)(o)(grown)); lg::Lcg g(n + kind * 17 + o);
    disjoint_set d(grown ? 0 : n); std::vector<int> c(n); std::vector<size_t> cnt(n, 1); size_t cls = n; for (int i = 0; i < n; i++) c[i] = i; if (grown) { size_t r = d.find(n - 1); MC_CHECK(r == (size_t)n - 1, "find of a new element"); } std::vector<int> ord = lg::order(n, o);
    auto unite = [&](int x, int y) { bool e = c[x] != c[y]; bool r = d.unite(x, y); mc::op(); MC_CHECK(r == e, "unite(%d,%d)=%d", x, y, r); if (e) { int a = c[x], b = c[y]; for (int& z : c) if (z == b) z = a; cnt[a] += cnt[b]; cls--; } };
    auto same = [&](const char* when) { mc::op(); MC_CHECK((int)d.size() == n && d.distinct() == cls, "%s: %d classes, expected %d", when, (int)d.distinct(), (int)cls); std::vector<int> rep(n, -1); for (int i : ord) { size_t r = d.find(i); MC_CHECK((int)r < n && c[r] == c[i], "%s: find(%d)=%d", when, i, (int)r); if (rep[c[i]] < 0) rep[c[i]] = (int)r; MC_CHECK(rep[c[i]] == (int)r && d.count(i) == cnt[c[i]], "%s: class of %d", when, i); } };
    for (int k = 0; k < n; k++) { int i = ord[k]; if (kind == 0) { if (i + 1 < n) unite(i, i + 1); } else if (kind == 1) unite(0, i); else if (kind == 2) { if (i) unite(i, i / 2); } else if (kind == 3) { if (i + 10 < n) unite(i + 10, i); } else if (kind == 4) unite(i, g.below(n)); else { if (i % 16) unite(i, i & ~15); else if (i % 64) unite(i, i & ~63); } if (k % 50 == 3) { d.add_count(i, k); cnt[c[i]] += k; } if (k == n / 3 || k == n / 2) same("partly united"); }
    same("united"); disjoint_set e(d); d.clear(n / 2); MC_CHECK((int)d.size() == n / 2 && (int)d.distinct() == n / 2, "clear"); for (int i = 0; i < n / 2; i++) MC_CHECK((int)d.find(i) == i && d.count(i) == 1, "cleared element %d", i); d = e; same("copied");
}
MC_SETUP(large_setup) { mc::add("large_lct", large_lct, 8); mc::add("large_sets", large_sets, 8); }
MC_SCENARIO(disjoint_set_history, 40) {
    int n = mc::tier(4, 5), depth = mc::tier(4, 5), n0 = mc::choose(2) ? 5 : mc::choose(3); disjoint_set d(n0); part p; p.grow(n0);
    for (int i = 0;; i++) {
        if (mc::fresh()) ds_verify(d, p);
        if (i == depth) return;
        int o = mc::choose(4), x = mc::choose(n);
        if (o < 2) { if (o == 1 && i > 1 && i < depth - 2) return; int y = mc::choose(n); if (o == 1) std::swap(x, y); if (o == 1 && x == y) return; mc::trace("unite %d %d", x, y); bool r = d.unite(x, y), e = p.unite(x, y); MC_CHECK(r == e, "unite(%d,%d)=%d", x, y, r); }
        else if (o == 2) { p.grow(x + 1); mc::trace("find %d", x); size_t r = d.find(x); MC_CHECK(r < p.c.size() && p.c[r] == p.c[x], "find(%d)=%d", x, (int)r); }
        else if (x + 1 < n) { p.grow(x + 1); mc::trace("add_count %d", x); d.add_count(x, 10 + i); p.cnt[p.c[x]] += 10 + i; }
        else { mc::trace("clear"); int k = mc::choose(2) * 3; d.clear(k); p = part(); p.grow(k); }
        mc::op();
    }
}
MC_SCENARIO(disjoint_set_merge_trees, 8) { // all ways to unite 8 elements in three rounds of pairs, then chains of finds
    disjoint_set d(8); part p; p.grow(8);
    for (int i = 0; i < 8; i += 2) { int s = mc::choose(2); d.unite(i + s, i + 1 - s); p.unite(i + s, i + 1 - s); }
    for (int i = 0; i < 8; i += 4) { int a = i + mc::choose(2), b = i + 2 + mc::choose(2), s = mc::choose(2); d.unite(s ? b : a, s ? a : b); p.unite(a, b); }
    if (mc::choose(2)) { int a = mc::choose(4), b = 4 + mc::choose(4), s = mc::choose(2); d.unite(s ? b : a, s ? a : b); p.unite(a, b); }
    int x = mc::choose(8), y = mc::choose(8); d.find(x); d.find(y); ds_verify(d, p);
}
