// C04 range aggregates (segment tree, lazy segment tree, Fenwick tree, direct RMQ) against the naive fold.
// MC_BOUNDS: segment tree: sizes 0..9, sequence-concatenation (free, non-commutative) monoid, every history of set / write+rebuild(all | index | range) of 3 (quick) / 4 (thorough) operations with every range queried after every operation; lazy tree: capacities 1..8, every history of range updates (three non-commuting functions, whole-segment, leaf-only and uniform-segment update policies), restore+write+rebuild and single queries of 2-4 / 3-5 operations with visited-state merging on the exact node array; Fenwick: sizes 0..9, 3 monoids, 4 / 5 operations; RMQ: block sizes 1,2,3,4,8: every array over {0,1,2} up to length 9 / 11, all permutations of 8 (and 9 thorough), two-dips-on-a-monotone-background families up to 140 elements, rebuild with a second array; trees of every size up to 120 and sizes up to 600 (4000), lazy trees under 150 range updates of 4 patterns, minima over up to 70000 elements in 7 orders
#include "mc.h"
#include "large.h"
#include "altruct/structure/container/segment_tree.h"
#include "altruct/structure/container/lazy_segment_tree.h"
#include "altruct/structure/math/fenwick_tree.h"
#include "altruct/structure/container/range_minimum_query.h"
#include <algorithm>
#include <list>
#include <numeric>
using namespace altruct;
using container::segment_tree; using container::lazy_segment_tree; using container::direct_rmq; using math::fenwick_tree;

// free monoid: words over {1,2,3}, two bits per letter
struct W { uint64_t w; int n; W() : w(0), n(0) {} W(int c) : w(c), n(1) {} bool operator==(const W& o) const { return w == o.w && n == o.n; } };
static W cat(const W& a, const W& b) { W r; r.w = (a.w << (2 * b.n)) | b.w; r.n = a.n + b.n; return r; }
static std::string show(const W& a) { std::string s; for (int i = a.n - 1; i >= 0; i--) s += char('0' + ((a.w >> 2 * i) & 3)); return "'" + s + "'"; }

template <class TREE> static void seg_verify(const TREE& t, const std::vector<W>& m, const char* what) {
    int cap = (int)t.size();
    MC_CHECK(cap >= (int)m.size(), "%s: capacity %d < %d", what, cap, (int)m.size());
    for (int b = 0; b <= cap; b++) {
        W acc;
        for (int e = b; e <= cap; e++) {
            if (e > b && e <= (int)m.size()) acc = cat(acc, m[e - 1]);
            W g = t.get(b, e);
            MC_CHECK(g == acc, "%s: get(%d,%d)=%s expected %s (n=%d)", what, b, e, show(g).c_str(), show(acc).c_str(), (int)m.size());
        }
        if (b < (int)m.size()) { MC_CHECK(t.get(b) == m[b] && t[b] == m[b], "%s: element %d", what, b); }
    }
    mc::op();
}
static void seg(int n) {
    typedef W (*F)(const W&, const W&);
    std::vector<W> m;
    int ctor = mc::choose(3);
    for (int i = 0; i < n; i++) m.push_back(ctor == 0 ? W() : W(1 + (i * 7 / 3) % 3));
    std::list<W> src(m.begin(), m.end());
    segment_tree<W, F> t0((size_t)n, F(cat), W());
    segment_tree<W, F> t = ctor == 0 ? t0 : ctor == 1 ? segment_tree<W, F>(m.begin(), m.end(), F(cat), W()) : segment_tree<W, F>(src.begin(), src.end(), F(cat), W());
    seg_verify(t, m, "after construction");
    int depth = mc::tier(3, 4);
    for (int i = 0; i < depth && n; i++) {
        mc::H k; k(n)(depth - i); for (auto& e : m) k(e.w)(e.n); for (auto& e : t.v) k(e.w)(e.n);
        if (mc::seen(k)) return; mc::state(k);
        int o = mc::choose(4), p = mc::choose(n); W val = mc::choose(2) ? W(3) : W();
        const char* what = "?";
        if (o == 0) { what = "set"; t.set(p, val); m[p] = val; }
        else if (o == 1) { what = "write+rebuild()"; t[p] = val; m[p] = val; t[n - 1 - p] = W(2); m[n - 1 - p] = W(2); t.rebuild(); }
        else if (o == 2) { what = "write+rebuild(index)"; t[p] = val; m[p] = val; t.rebuild(p); }
        else { int q = p + 1 + mc::choose(n - p); what = "write+rebuild(range)"; for (int j = p; j < q; j++) t[j] = m[j] = ((j - p) & 1) ? W(2) : val; t.rebuild(p, q); }
        mc::trace("%s at %d value %s", what, p, show(val).c_str());
        if (mc::fresh()) { seg_verify(t, m, what); segment_tree<W, F> c(t); c.set(p, W(1)); seg_verify(t, m, "after a copy was modified"); }
    }
}
MC_SETUP(seg_all) {
    for (int n = 0; n <= mc::tier(9, 9); n++) mc::add("segment_tree_n" + std::to_string(n), [n] { seg(n); }, n > 5 ? 12 : 1);
    mc::add("segment_tree_std_function", [] {
        int n = 1 + mc::choose(9); std::vector<int> a(n); for (auto& x : a) x = mc::choose(2);
        segment_tree<int> t(a.begin(), a.end(), [](int x, int y) { return std::min(x, y); }, 1 << 30), s(a.begin(), a.end(), [](int x, int y) { return x + y; });
        for (int b = 0; b <= n; b++) for (int e = b; e <= n; e++) {
            int mn = 1 << 30, sm = 0; for (int i = b; i < e; i++) mn = std::min(mn, a[i]), sm += a[i];
            MC_CHECK(t.get(b, e) == mn && s.get(b, e) == sm, "min/sum over [%d,%d) of %s: %d %d", b, e, mc::show(a).c_str(), t.get(b, e), s.get(b, e));
        }
        mc::op(); mc::state(mc::H().range(a));
    }, 8);
}

// lazy tree: sequence over {0,1,2}, node keeps its word and a pending function {0,1,2}->{0,1,2}
struct N { uint32_t w; uint8_t n, f; N() : w(0), n(0), f(0) {} };   // f encodes the function as base-3 digits, id = 0+1*3+2*9 = 21
enum { FID = 0 + 3 * 1 + 9 * 2 };
static int fap(int f, int x) { return x == 0 ? f % 3 : x == 1 ? f / 3 % 3 : f / 9; }
static int fcomp(int g, int f) { return fap(g, fap(f, 0)) + 3 * fap(g, fap(f, 1)) + 9 * fap(g, fap(f, 2)); } // g after f
static N nid() { N x; x.f = FID; return x; }
static N leaf(int c) { N x = nid(); x.w = c; x.n = 1; return x; }
static uint32_t wmap(uint32_t w, int n, int f) { uint32_t r = 0; for (int i = n - 1; i >= 0; i--) r = r << 2 | fap(f, w >> 2 * i & 3); return r; }
static void napply(N& x, int f) { x.w = wmap(x.w, x.n, f); x.f = fcomp(f, x.f); }
static void fup(N& p, const N& l, const N& r) { N t = nid(); t.w = l.w << (2 * r.n) | r.w; t.n = l.n + r.n; p = t; }
static void fdown(N& p, N& l, N& r) { if (p.f != FID) { napply(l, p.f); napply(r, p.f); p.f = FID; } }
typedef lazy_segment_tree<N, void (*)(N&, const N&, const N&), void (*)(N&, N&, N&)> lazy;
static uint32_t wof(const std::vector<int>& m, int b, int e) { uint32_t w = 0; for (int i = b; i < e; i++) w = w << 2 | m[i]; return w; }
static void lazy_check(const lazy& t0, const std::vector<int>& m, int b, int e, const char* what) { // on a copy: get() may push pending updates
    static lazy t((size_t)1, fup, fdown, nid()); t = t0;
    N g = t.get(b, e); MC_CHECK(g.n == e - b && g.w == wof(m, b, e), "%s: get(%d,%d) is %x/%d, expected %x", what, b, e, g.w, g.n, wof(m, b, e));
    N h = t.get(b, e); MC_CHECK(h.n == g.n && h.w == g.w, "%s: repeated get(%d,%d) changed", what, b, e);
}
static void lazy_run(int n) {
    static const int FN[4] = {1 + 3 * 2 + 9 * 0 /*cycle*/, 0 /*const 0*/, 1 + 3 * 0 + 9 * 2 /*swap 01*/, 2 + 3 * 2 + 9 * 1};
    std::vector<int> m(n); for (int i = 0; i < n; i++) m[i] = i % 3;
    std::vector<N> src; for (int c : m) src.push_back(leaf(c));
    lazy t(src.begin(), src.end(), fup, fdown, nid());
    if (mc::choose(2)) { // sized constructor, fill, rebuild
        lazy u((size_t)n, fup, fdown, nid()); for (int i = 0; i < n; i++) u[i] = leaf(m[i]);
        if (mc::choose(2)) u.rebuild(); else u.rebuild(0, n); t = u;
    }
    MC_CHECK((int)t.size() >= n, "capacity");
    int depth = mc::tier(n <= 4 ? 4 : n <= 6 ? 3 : 2, n <= 4 ? 5 : n <= 6 ? 4 : 3);
    for (int i = 0;; i++) {
        mc::H k; k(n)(depth - i).range(m); for (auto& e : t.v) k(e.w)(e.n)(e.f);
        if (mc::fresh()) for (int b = 0; b <= n; b++) for (int e = b; e <= n; e++) lazy_check(t, m, b, e, "query");
        mc::state(k); if (i == depth || mc::seen(k)) return;
        int o = mc::choose(3);
        if (o == 0) { // range update
            int b = mc::choose(n + 1), e = b + mc::choose(n + 1 - b), f = FN[mc::choose(3)], pol = mc::choose(3);
            mc::trace("update [%d,%d) f=%d policy=%d", b, e, f, pol);
            t.update(b, e, [&](N& x) {
                if (x.n == 0) return true;
                bool uniform = true; for (int j = 1; j < x.n; j++) if ((x.w >> 2 * j & 3) != (x.w & 3)) uniform = false;
                if (pol == 1 && x.n > 1) return false; if (pol == 2 && !uniform) return false;
                napply(x, f); return true;
            });
            for (int j = b; j < e; j++) m[j] = fap(f, m[j]);
        } else if (o == 1) { // a query (pushes pending updates down)
            int b = mc::choose(n + 1), e = b + mc::choose(n + 1 - b); mc::trace("get [%d,%d)", b, e);
            N g = t.get(b, e); MC_CHECK(g.n == e - b && g.w == wof(m, b, e), "get(%d,%d) is %x/%d, expected %x", b, e, g.w, g.n, wof(m, b, e));
        } else { // restore a range, write its elements directly, rebuild it
            int b = mc::choose(n), e = b + 1 + mc::choose(n - b); mc::trace("restore/write/rebuild [%d,%d)", b, e);
            t.restore(b, e);
            for (int j = b; j < e; j++) { MC_CHECK((int)t[j].w == m[j] && t[j].n == 1, "restored element %d is %d, expected %d", j, t[j].w, m[j]); t[j] = leaf((m[j] + j) % 3); m[j] = (m[j] + j) % 3; }
            if (e - b == n) t.rebuild(); else t.rebuild(b, e);
        }
        mc::op();
    }
}
MC_SETUP(lazy_all) { for (int n = 1; n <= 8; n++) mc::add("lazy_tree_n" + std::to_string(n), [n] { lazy_run(n); }, n > 3 ? 6 : 1); }

template <class F> static void fen(int n, int mono, F f, int id, std::vector<int> vals) {
    fenwick_tree<int, F> t((size_t)n, f, id); std::vector<int> m(n, id);
    int depth = mc::tier(4, 5);
    for (int i = 0;; i++) {
        if (mc::fresh()) {
            MC_CHECK(t.get_sum((size_t)-1, id) == id, "empty prefix");
            int acc = id; for (int j = 0; j < n; j++) { acc = f(acc, m[j]); int g = t.get_sum(j, id); MC_CHECK(g == acc, "monoid %d: prefix %d of %s is %d", mono, j, mc::show(m).c_str(), g); }
        }
        mc::H k; k(n)(mono)(depth - i).range(t.v).range(m); mc::state(k);
        if (i == depth || n == 0 || mc::seen(k)) return;
        int o = mc::choose((int)vals.size() + 1);
        if (o == (int)vals.size()) { t.reset(id); std::fill(m.begin(), m.end(), id); mc::trace("reset"); }
        else { int p = mc::choose(n); mc::trace("add(%d,%d)", p, vals[o]); t.add(p, vals[o]); m[p] = f(m[p], vals[o]); }
        mc::op();
    }
}
static int add_(int a, int b) { return a + b; } static int xor_(int a, int b) { return a ^ b; } static int max_(int a, int b) { return a > b ? a : b; }
MC_SETUP(fen_all) {
    for (int n = 0; n <= 9; n++) {
        mc::add("fenwick_add_n" + std::to_string(n), [n] { fen(n, 0, add_, 0, {1, -3, 100}); });
        mc::add("fenwick_xor_n" + std::to_string(n), [n] { fen(n, 1, xor_, 0, {1, 6}); });
        mc::add("fenwick_max_n" + std::to_string(n), [n] { fen(n, 2, max_, -1000, {-5, 7}); });
    }
}

template <class R, class V, class LESS> static void rmq_check(R& r, const std::vector<V>& a, LESS less) {
    int n = (int)a.size();
    for (int b = 0; b < n; b++) {
        V best = a[b];
        for (int e = b + 1; e <= n; e++) {
            if (less(a[e - 1], best)) best = a[e - 1];
            int i = (int)r.get_index(b, e); V v = r.get_value(b, e);
            MC_CHECK(i >= b && i < e && a[i] == best && v == best, "rmq [%d,%d) of %s: index %d value %d, expected %d", b, e, mc::show(a).c_str(), i, (int)v, (int)best);
        }
    }
    mc::op();
}
template <int B, class CMP> static void rmq_arrays(int alpha, int maxlen) {
    int n = mc::choose(maxlen + 1); std::vector<int> a(n); for (auto& x : a) x = mc::choose(alpha) - 1;
    direct_rmq<int, CMP, int, B> r; r.build(a.begin(), a.end()); rmq_check(r, a, CMP()); mc::state(mc::H()(B).range(a));
    std::vector<int> b(a.rbegin(), a.rend()); b.push_back(1); b.push_back(-2); r.build(b.begin(), b.end()); rmq_check(r, b, CMP()); // the structure is reused
    r.build(a.begin(), a.end()); rmq_check(r, a, CMP());
}
template <int B> static void rmq_perm(int n) {
    std::vector<int> a; std::vector<int> pool(n); std::iota(pool.begin(), pool.end(), 0);
    while (!pool.empty()) { int i = mc::choose((int)pool.size()); a.push_back(pool[i]); pool.erase(pool.begin() + i); }
    direct_rmq<int, std::less<int>, int, B> r; r.build(a.begin(), a.end()); rmq_check(r, a, std::less<int>()); mc::state(mc::H()(B).range(a));
}
template <int B> static void rmq_dips(int n) { // monotone/constant background with two marked positions
    int dir = mc::choose(3), i = mc::choose(n), j = i + mc::choose(n - i), h = mc::choose(2);
    std::vector<int> a(n); for (int k = 0; k < n; k++) a[k] = dir == 0 ? k : dir == 1 ? n - k : 0;
    a[i] = h ? -5 : 1000; a[j] = h ? -6 : 999;
    direct_rmq<int, std::less<int>, int, B> r; r.build(a.begin(), a.end()); rmq_check(r, a, std::less<int>()); mc::state(mc::H()(B)(n)(dir)(i)(j)(h));
}
MC_SETUP(rmq_all) {
    int L = mc::tier(8, 10);
    mc::add("rmq_b1", [L] { rmq_arrays<1, std::less<int>>(3, L); }, 9); mc::add("rmq_b2", [L] { rmq_arrays<2, std::less<int>>(3, L); }, 9);
    mc::add("rmq_b3", [L] { rmq_arrays<3, std::less<int>>(3, L); }, 9); mc::add("rmq_b4_max", [L] { rmq_arrays<4, std::greater<int>>(3, L); }, 9);
    mc::add("rmq_b4_binary", [] { rmq_arrays<4, std::less<int>>(2, mc::tier(13, 15)); }, 14);
    mc::add("rmq_b8_perm8", [] { rmq_perm<8>(8); }, 8); mc::add("rmq_b3_perm7", [] { rmq_perm<3>(7); }, 2);
    if (mc::thorough()) mc::add("rmq_b8_perm9", [] { rmq_perm<8>(9); }, 9);
    for (int n : {1, 2, 5, 12, 17, 23}) { mc::add("rmq_b2_dips_" + std::to_string(n), [n] { rmq_dips<2>(n); }); mc::add("rmq_b1_dips_" + std::to_string(n), [n] { rmq_dips<1>(n); }); }
    for (int n : {7, 8, 9, 33, 40}) mc::add("rmq_b8_dips_" + std::to_string(n), [n] { rmq_dips<8>(n); });
    if (mc::thorough()) for (int n : {64, 100, 140}) mc::add("rmq_b8_dips_" + std::to_string(n), [n] { rmq_dips<8>(n); }, 12);
}
// large: affine maps modulo a prime (do not commute) in the trees, every range checked from a spread of starts
struct A { uint32_t a, b; bool operator==(const A& o) const { return a == o.a && b == o.b; } }; static const uint64_t AP = 998244353; static A acat(const A& x, const A& y) { return A{(uint32_t)(x.a * (uint64_t)y.a % AP), (uint32_t)((x.b * (uint64_t)y.a + y.b) % AP)}; }
static void large_segment() { int n = 10 + mc::choose(mc::tier(150, 400)); if (n > 120) n = (n - 110) * 13 + 100; int how = mc::choose(3); mc::state(mc::H()(n)(how)); mc::trace("segment tree of %d", n); std::vector<A> m; for (int i = 0; i < n; i++) m.push_back(A{(uint32_t)(i * 37 + 2), (uint32_t)(i * i + 5)}); typedef segment_tree<A, A (*)(const A&, const A&)> S; A id{1, 0}; S t(m.begin(), m.end(), (A (*)(const A&, const A&))[](const A& x, const A& y) { return acat(x, y); }, id); if (how) { S u((size_t)n, t.f, id); if (how == 1) for (int i = 0; i < n; i++) u.set(i, m[i]); else { for (int i = 0; i < n; i++) u[i] = m[i]; u.rebuild(); } t = u; }
    auto all = [&](const char* w) { mc::op(); int st = n > 60 ? n / 25 : 1; for (int b = 0; b <= n; b += st) { A acc = id; for (int e = b; e <= n; e++) { MC_CHECK(t.get(b, e) == acc, "%s: [%d, %d) of %d", w, b, e, n); if (e < n) acc = acat(acc, m[e]); } } for (int i = 0; i < n; i++) MC_CHECK(t.get(i) == m[i] && ((const S&)t)[i] == m[i], "%s: element %d of %d", w, i, n); }; all("built"); auto o = lg::order(n, 5); for (int i = 0; i < n; i += 3) { m[o[i]] = A{(uint32_t)i + 3, (uint32_t)(i * 91 + 1)}; t.set(o[i], m[o[i]]); } all("set"); for (int b = 0; b < n; b += 1 + n / 9) { int e = std::min(n, b + 1 + (b * 7) % (n / 2 + 1)); for (int i = b; i < e; i++) { m[i] = acat(m[i], A{2, 1}); t[i] = m[i]; } t.rebuild(b, e); } all("rebuilt in parts"); for (int i = 0; i < n; i += 4) { m[i] = A{5, (uint32_t)i}; t[i] = m[i]; t.rebuild(i); } all("rebuilt one by one"); }
struct LN { int64_t sum, mn; int n; A f; }; static void lapply(LN& x, const A& f) { if (!x.n) return; x.sum = (x.sum * f.a + (int64_t)x.n * f.b) % (int64_t)AP; x.f = acat(x.f, f); }
static void lup(LN& p, const LN& l, const LN& r) { LN t{(l.sum + r.sum) % (int64_t)AP, 0, l.n + r.n, A{1, 0}}; t.mn = (l.mn * 31 + r.mn) % 1000003; p = t; } static void ldown(LN& p, LN& l, LN& r) { if (!(p.f == A{1, 0})) { lapply(l, p.f); lapply(r, p.f); p.f = A{1, 0}; } }
static void large_lazy() { int n = 9 + mc::choose(mc::tier(60, 200)); if (n > 50) n = (n - 46) * 21; int pat = mc::choose(4); mc::state(mc::H()(n)(pat)); mc::trace("lazy tree of %d, pattern %d", n, pat); std::vector<int64_t> m; std::vector<LN> src; for (int i = 0; i < n; i++) { m.push_back(i * 13 % 101); src.push_back(LN{m[i], 0, 1, A{1, 0}}); } typedef lazy_segment_tree<LN, void (*)(LN&, const LN&, const LN&), void (*)(LN&, LN&, LN&)> S; S t(src.begin(), src.end(), lup, ldown, LN{0, 0, 0, A{1, 0}}); auto sum = [&](int b, int e) { int64_t s = 0; for (int i = b; i < e; i++) s += m[i]; return s % (int64_t)AP; }; lg::Lcg g(n * 4 + pat);
    for (int q = 0; q < 150; q++) { int b = pat == 0 ? g.below(n + 1) : pat == 1 ? 0 : pat == 2 ? q % (n + 1) : g.below(n / 2 + 1), e = pat == 2 ? n : b + g.below(n - b + 1); A f{(uint32_t)g.below(5), (uint32_t)g.below(1000)}; mc::op(); if (q % 10 == 9 && b < e) { t.restore(b, e); for (int i = b; i < e; i++) { MC_CHECK(t[i].sum == m[i], "restored element %d of %d is %lld, expected %lld", i, n, (long long)t[i].sum, (long long)m[i]); m[i] = (m[i] + i) % 1000; t[i] = LN{m[i], 0, 1, A{1, 0}}; } t.rebuild(b, e); } else { bool leaves = q % 7 == 3; t.update(b, e, [&](LN& x) { if (leaves && x.n > 1) return false; lapply(x, f); return true; }); for (int i = b; i < e; i++) m[i] = (m[i] * f.a + f.b) % (int64_t)AP; } for (int k = 0; k < 4; k++) { int x = k == 0 ? b : g.below(n + 1), y = k == 0 ? e : x + g.below(n - x + 1); LN r = t.get(x, y); MC_CHECK(r.sum == sum(x, y) && r.n == y - x, "sum of [%d, %d) of %d is %lld, expected %lld", x, y, n, (long long)r.sum, (long long)sum(x, y)); } } for (int i = 0; i < n; i++) MC_CHECK(t.get(i, i + 1).sum == m[i], "element %d", i); }
static void large_fenwick() { int n = 10 + mc::choose(mc::tier(140, 400)); if (n > 120) n = (n - 110) * 29; int o = mc::choose(lg::NORDERS); mc::state(mc::H()(n)(o)); fenwick_tree<int64_t, int64_t (*)(int64_t, int64_t)> t((size_t)n, [](int64_t a, int64_t b) { return a + b; }, 0); std::vector<int64_t> m(n); auto v = lg::order(n, o); for (int i = 0; i < n; i++) { t.add(v[i], i * 3 + 1); m[v[i]] += i * 3 + 1; if (i % 5 == 0) { t.add(i, -7); m[i] -= 7; } mc::op(); if (n > 40 && i % (n / 10) && i != n - 1) continue; int64_t s = 0; for (int k = 0; k < n; k++) { s += m[k]; MC_CHECK(t.get_sum(k, 0) == s, "prefix %d of %d is %lld, expected %lld", k, n, (long long)t.get_sum(k, 0), (long long)s); } } }
template <int B> static void large_rmq() { static const int N[] = {65, 100, 129, 257, 500, 1025, 4100, 70000}; int n = N[mc::choose(8)], o = mc::choose(lg::NORDERS), sp = mc::choose(3); mc::state(mc::H()(n)(o)(sp)(B)); mc::trace("range minimum over %d in order %d", n, o); std::vector<int> a = lg::order(n, o); for (auto& x : a) x = sp == 0 ? x : sp == 1 ? x / 5 : x % 3; direct_rmq<int, std::less<int>, int, B> r; r.build(a.begin(), a.end()); for (int k = 0; k < 12; k++) { int b = (int)((int64_t)n * k * k / 150), best = a[b], nx = b, st = 1; for (int e = b + 1; e <= n; e++) { best = std::min(best, a[e - 1]); if (e - b < 40 || n < 1500 || e == nx || e == n || ((e - b) & (e - b - 1)) == 0 || ((e - b - 1) & (e - b - 2)) == 0) { int i = r.get_index(b, e); mc::op(); MC_CHECK(i >= b && i < e && a[i] == best && r.get_value(b, e) == best, "minimum of [%d, %d) of %d", b, e, n); } if (e >= nx) { nx = e + st; st += 1 + st / 4; } } } }
MC_SETUP(large_all) { mc::add("large_segment", large_segment, 8); mc::add("large_lazy", large_lazy, 8); mc::add("large_fenwick", large_fenwick, 4); mc::add("large_rmq_8", large_rmq<8>, 2); mc::add("large_rmq_1", large_rmq<1>, 2); mc::add("large_rmq_5", large_rmq<5>, 2); }
