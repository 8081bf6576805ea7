// C09 lazy treap: every history of insertions, erasures, range updates and range queries, for every choice of the random priorities, compared with a sorted sequence.
// MC_BOUNDS: histories of up to 5 operations (thorough 6) over 3 keys with duplicates, trees of 5-6 elements (thorough 6-7) of every shape with pending updates inside followed by one structural change, priorities from {0,1,2}, affine range updates modulo 101 (do not commute) and an order-sensitive aggregate; the full contents and the aggregate of every range at the end of every history; treaps of 20..1000 elements built in 7 orders from distinct and repeated keys through listed histories of range updates, queries, insertions and erasures
// MC_ASSUME: around a range query or update the caller pushes pending updates down to both ends (propagate_down_to) and, after an update, pulls aggregates up from both ends (propagate_up)
// MC_FLAGS: -O1
#include "mc.h"
#include "large.h"
#include <utility>
#include <limits>
#include <iterator>
#include <vector>
#include <algorithm>
#include "altruct/structure/container/lazy_treap.h"
static const int P = 101, BASE = 7;
// an element with an own value, an order-sensitive aggregate of its subtree and a pending affine update for its children
struct E { int key = 0, val = 0; int len = 0, hash = 0, pw = 1, ones = 0; int a = 1, b = 0; };
static bool operator<(const E& x, const E& y) { return x.key < y.key; }
static E elem(int key, int val) { E e; e.key = key; e.val = val; e.len = 1; e.hash = val; e.pw = BASE; e.ones = 1; return e; }
static void cat(E& r, const E& x) { r.hash = (r.hash * x.pw + x.hash) % P; r.ones = (r.ones * x.pw + x.ones) % P; r.pw = r.pw * x.pw % P; r.len += x.len; }
static void up(E& p, const E& l, const E& r) { E t; cat(t, l); E me = elem(p.key, p.val); cat(t, me); cat(t, r); p.len = t.len; p.hash = t.hash; p.pw = t.pw; p.ones = t.ones; }
static void apply(E& e, int a, int b) { e.val = (a * e.val + b) % P; e.hash = (a * e.hash + b * e.ones) % P; e.b = (a * e.b + b) % P; e.a = a * e.a % P; }
static void down(E& p, E& l, E& r) { if (p.a != 1 || p.b != 0) { apply(l, p.a, p.b); apply(r, p.a, p.b); p.a = 1; p.b = 0; } }
typedef altruct::container::lazy_treap<E> LT;
static int prio; static int rnd() { return prio = mc::choose(3); }
struct Model { std::vector<E> v; void ins(int k, int val) { auto it = std::upper_bound(v.begin(), v.end(), elem(k, 0)); v.insert(it, elem(k, val)); } };
static LT::iterator at(LT& t, int i) { auto it = t.begin(); while (i--) ++it; return it; }
static E fold(const Model& m, int i, int j) { E t; for (; i < j; i++) cat(t, elem(m.v[i].key, m.v[i].val)); return t; }
static void same(const E& g, const E& w, const char* what) { MC_CHECK(g.len == w.len && g.hash == w.hash && g.pw == w.pw, "%s: aggregate of %d elements %d, wanted %d elements %d", what, g.len, g.hash, w.len, w.hash); }
static void root_ok(LT& t, const Model& m, const char* what) { MC_CHECK(t.size() == (int)m.v.size() && t.empty() == m.v.empty(), "%s: size %d, wanted %zu", what, t.size(), m.v.size()); if (m.v.size()) same(*t.root(), fold(m, 0, (int)m.v.size()), what); int i = 0; for (auto it = t.begin(); it != t.end(); ++it, ++i) { MC_CHECK(i < (int)m.v.size(), "%s: too many elements", what); MC_CHECK((*it).key == m.v[i].key, "%s: key %d at position %d, wanted %d", what, (*it).key, i, m.v[i].key); MC_CHECK(it.pos() == i, "%s: pos() of element %d", what, i); } MC_CHECK(i == (int)m.v.size(), "%s: %d elements visited", what, i); }
static void query(LT& t, const Model& m, int i, int j, const char* what) { auto b = at(t, i), e = at(t, j); t.propagate_down_to(b); if (i < j) t.propagate_down_to(at(t, j - 1)); mc::op(); same(t.get(b, e), fold(m, i, j), what); }
static void finish(LT& t, Model& m, const char* what) { int n = (int)m.v.size(); LT c(t); for (int i = 0; i <= n; i++) for (int j = i; j <= n; j++) query(c, m, i, j, what); for (int i = n - 1; i >= 0; i--) { auto it = at(t, i); t.propagate_down_to(it); MC_CHECK((*it).val == m.v[i].val && (*it).key == m.v[i].key, "%s: element %d has value %d, wanted %d", what, i, (*it).val, m.v[i].val); }
    for (int k = -1; k <= 3; k++) { E q = elem(k, 0); auto lo = std::lower_bound(m.v.begin(), m.v.end(), q) - m.v.begin(), hi = std::upper_bound(m.v.begin(), m.v.end(), q) - m.v.begin(); auto ok = [&](LT::iterator it, int w) { return w == n ? it == t.end() : (it != t.end() && it.pos() == w); }; MC_CHECK(ok(t.lower_bound(q), (int)lo) && ok(t.upper_bound(q), (int)hi) && ok(t.find(q), lo == hi ? n : (int)lo), "%s: search for key %d", what, k); auto r = t.equal_range(q); MC_CHECK(ok(r.first, (int)lo) && ok(r.second, (int)hi), "%s: equal_range of key %d", what, k); } root_ok(t, m, what); }
static const int AF[2][2] = {{2, 1}, {1, 5}};
static void history(int depth, bool positions) {
    LT t(up, down, std::less<E>(), rnd); Model m; mc::H h; int next = 1;
    for (int d = 0; d < depth; d++) { int n = (int)m.v.size(); int op = mc::choose(positions ? 5 : 4); h(op);
        if (op == 0) { int k = mc::choose(3); mc::trace("insert %d", k); auto it = t.insert(elem(k, next)); h(k)(prio); m.ins(k, next); MC_CHECK((*it).key == k && (*it).val == next, "insert returned the element %d", (*it).key); next += 3; }
        else if (op == 1) { if (!n) mc::cut(); int i = mc::choose(n), j = i + 1 + mc::choose(n - i), f = mc::choose(2); h(i)(j)(f); mc::trace("update [%d, %d) by %d x + %d", i, j, AF[f][0], AF[f][1]); auto b = at(t, i), l = at(t, j - 1), e = at(t, j); t.propagate_down_to(b); t.propagate_down_to(l); t.update(b, e, [&](E& x) { apply(x, AF[f][0], AF[f][1]); }); t.propagate_up(b); t.propagate_up(l); for (; i < j; i++) m.v[i].val = (AF[f][0] * m.v[i].val + AF[f][1]) % P; }
        else if (op == 2) { int k = mc::choose(3); h(k); E q = elem(k, 0); auto lo = std::lower_bound(m.v.begin(), m.v.end(), q), hi = std::upper_bound(m.v.begin(), m.v.end(), q); if (lo == hi && d + 1 < depth) mc::cut(); mc::trace("erase key %d", k); t.erase(q); m.v.erase(lo, hi); }
        else if (op == 3) { if (!n) mc::cut(); int i = mc::choose(n), j = i + 1 + mc::choose(std::min(2, n - i)); h(i)(j); mc::trace("erase [%d, %d)", i, j); if (j == i + 1) t.erase(at(t, i)); else t.erase(at(t, i), at(t, j)); m.v.erase(m.v.begin() + i, m.v.begin() + j); }
        else { int i = mc::choose(n + 1); h(i); mc::trace("insert before %d", i); E x = elem(i < n ? m.v[i].key : n ? m.v[n - 1].key : 1, next); next += 3; t.insert_before(at(t, i), x); h(prio); m.v.insert(m.v.begin() + i, x); }
        mc::op(); mc::state(h.h); root_ok(t, m, "after the operation"); }
    finish(t, m, "at the end"); }
MC_SCENARIO(histories, 32) { history(mc::tier(5, 6), false); }
MC_SCENARIO(positional_histories, 32) { history(mc::tier(4, 5), true); }
MC_SCENARIO(big_trees, 16) { // every priority assignment of n elements inserted in either order, then one update and every query
    int n = mc::tier(6, 7), order = mc::choose(2); LT t(up, down, std::less<E>(), rnd); Model m; mc::H h; h(order); for (int i = 0; i < n; i++) { int k = order ? n - 1 - i : (i * 5 + 2) % n; t.insert(elem(k, i * 3 + 1)); m.ins(k, i * 3 + 1); h(prio); } mc::state(h.h); root_ok(t, m, "after the insertions"); for (int i = 0; i < n; i++) { int j = std::min(n, i + 1 + (i * 3 + (int)(h.h % 5)) % n); auto b = at(t, i), l = at(t, j - 1), e = at(t, j); t.propagate_down_to(b); t.propagate_down_to(l); t.update(b, e, [&](E& x) { apply(x, 2, i + 1); }); t.propagate_up(b); t.propagate_up(l); for (int x = i; x < j; x++) m.v[x].val = (2 * m.v[x].val + i + 1) % P; root_ok(t, m, "after an update"); mc::op(); } finish(t, m, "at the end"); }
MC_SCENARIO(pending, 32) { // a tree of every shape with updates pending inside it, then one change of the structure
    int n = mc::tier(5, 6); LT t(up, down, std::less<E>(), rnd); Model m; mc::H h; for (int i = 0; i < n; i++) { int k = (i * 3 + 1) % n; t.insert(elem(k, i * 3 + 1)); m.ins(k, i * 3 + 1); h(prio); } int i = mc::choose(n), j = i + 1 + mc::choose(n - i); h(i)(j); auto b = at(t, i), l = at(t, j - 1), e = at(t, j); t.propagate_down_to(b); t.propagate_down_to(l); t.update(b, e, [&](E& x) { apply(x, 2, 1); }); t.propagate_up(b); t.propagate_up(l); for (int x = i; x < j; x++) m.v[x].val = (2 * m.v[x].val + 1) % P;
    int what = mc::choose(4), p = mc::choose(n); h(what)(p); mc::trace("update [%d, %d), then %s at %d", i, j, what == 0 ? "erase" : what == 1 ? "erase two" : what == 2 ? "insert before" : "insert", p); E x = elem(m.v[p].key, 50); if (what == 0) { t.erase(at(t, p)); m.v.erase(m.v.begin() + p); } else if (what == 1) { int q = std::min(n, p + 2); t.erase(at(t, p), at(t, q)); m.v.erase(m.v.begin() + p, m.v.begin() + q); } else if (what == 2) { t.insert_before(at(t, p), x); h(prio); m.v.insert(m.v.begin() + p, x); } else { t.insert(x); h(prio); m.ins(x.key, 50); } mc::state(h.h); mc::op(); root_ok(t, m, "after the change"); finish(t, m, "at the end"); }
MC_SCENARIO(ownership, 4) { std::vector<E> src; int n = mc::choose(4); mc::H h; for (int i = 0; i < n; i++) { src.push_back(elem(mc::choose(3), i + 1)); h(src.back().key); } Model m; for (auto& e : src) m.ins(e.key, e.val); LT t(src.begin(), src.end(), up, down, std::less<E>(), rnd); int what = mc::choose(5); h(what); mc::state(h.h); mc::op(); root_ok(t, m, "built from a range"); LT o(up, down, std::less<E>(), rnd); Model mo; o.insert(elem(1, 9)); mo.ins(1, 9);
    if (what == 0) { LT c(t); MC_CHECK(c == t && !(c != t) && !(c < t) && c <= t && c >= t && !(c > t), "a copy differs"); c.insert(elem(0, 50)); Model mc2 = m; mc2.ins(0, 50); finish(c, mc2, "the changed copy"); } else if (what == 1) { LT c(std::move(t)); finish(c, m, "the move target"); LT d(c); t = d; } else if (what == 2) { o = t; finish(o, m, "the assigned treap"); } else if (what == 3) { o.swap(t); finish(o, m, "swapped"); finish(t, mo, "swapped back"); return; } else { t.clear(); m.v.clear(); root_ok(t, m, "cleared"); t.insert(elem(2, 4)); m.ins(2, 4); } finish(t, m, "the original"); }
// large treaps, listed orders and histories
static lg::Lcg g_lcg(1); static int lrnd() { return (int)(g_lcg() >> 1); }
static void l_same(LT& t, Model& m, lg::Lcg& g, const char* what) { root_ok(t, m, what); int n = (int)m.v.size(); mc::op(); for (int q = 0; q < 12 && n; q++) { int i = g.below(n + 1), j = i + g.below(n - i + 1); query(t, m, i, j, what); } }
static void large() {
    static const int N[] = {20, 70, 300, 1000}; int n = N[mc::choose(4)], o = mc::choose(lg::NORDERS), eo = mc::choose(lg::NORDERS), dup = mc::choose(3); mc::state(mc::H()(n)(o)(eo)(dup)); mc::trace("%d elements inserted in order %d and erased in order %d, keys of kind %d", n, o, eo, dup); g_lcg = lg::Lcg(o * 3 + eo); lg::Lcg g(n + o * 10 + eo * 100 + dup);
    int div = dup == 0 ? 1 : dup == 1 ? 5 : n; LT t(up, down, std::less<E>(), lrnd); Model m; int c = 0;
    auto upd = [&]() { int k = (int)m.v.size(); if (!k) return; int i = g.below(k), j = i + 1 + g.below(k - i), a = 1 + g.below(P - 1), s = g.below(P); auto b = at(t, i), l = at(t, j - 1), e = at(t, j); t.propagate_down_to(b); t.propagate_down_to(l); t.update(b, e, [&](E& x) { apply(x, a, s); }); t.propagate_up(b); t.propagate_up(l); for (; i < j; i++) m.v[i].val = (a * m.v[i].val + s) % P; mc::op(); if (k < 100) root_ok(t, m, "after an update"); };
    for (int k : lg::order(n, o)) { int key = k / div, val = (c * 37 + 11) % P; if (c % 9 == 8 && m.v.size()) { int i = g.below((int)m.v.size()); E x = elem(m.v[i].key, val); t.insert_before(at(t, i), x); m.v.insert(m.v.begin() + i, x); } else { auto it = t.insert(elem(key, val)); MC_CHECK((*it).key == key && (*it).val == val, "insert returned another element"); m.ins(key, val); } if (c % 4 == 1) upd(); c++; if (c == n / 2) l_same(t, m, g, "half inserted"); } l_same(t, m, g, "inserted"); LT d(t); Model dm = m;
    for (int i = 0; i < 10; i++) upd(); l_same(t, m, g, "updated"); l_same(d, dm, g, "the copy"); c = 0;
    for (int k : lg::order(n, eo)) { int s = (int)m.v.size(); if (s < 4) break; int i = (int)((int64_t)k * s / n); if (c % 6 == 5) { int j = std::min(s, i + 5); t.erase(at(t, i), at(t, j)); m.v.erase(m.v.begin() + i, m.v.begin() + j); } else if (c % 3 == 2 && div < n) { E q = elem(k / div, 0); auto lo = std::lower_bound(m.v.begin(), m.v.end(), q), hi = std::upper_bound(m.v.begin(), m.v.end(), q); int w = (int)(lo - m.v.begin()); auto it = t.lower_bound(q); MC_CHECK((it == t.end()) == (lo == m.v.end()) && (it == t.end() || it.pos() == w), "lower_bound of key %d", q.key); t.erase(q); m.v.erase(lo, hi); } else { t.erase(at(t, i)); m.v.erase(m.v.begin() + i); } if (c % 3 == 0) upd(); if (c % 10 == 7) { t.insert(elem(k / div, c % P)); m.ins(k / div, c % P); } c++; if (c == n / 4 || c == n / 2) l_same(t, m, g, "partly erased"); } l_same(t, m, g, "erased"); for (int i = (int)m.v.size() - 1; i >= 0; i--) { auto it = at(t, i); t.propagate_down_to(it); MC_CHECK((*it).val == m.v[i].val && (*it).key == m.v[i].key, "element %d has value %d, wanted %d", i, (*it).val, m.v[i].val); }
    t.swap(d); l_same(t, dm, g, "swapped"); LT e(std::move(t)); l_same(e, dm, g, "moved"); e.clear(); dm.v.clear(); root_ok(e, dm, "cleared"); }
MC_SETUP(large_setup) { mc::add("large", large, 16); }
