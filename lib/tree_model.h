// Shared driver for binary_search_tree and treap: operation histories against an ordered multiset model.
#pragma once
#include "mc.h"
#include "altruct/structure/container/binary_search_tree.h"
#include "altruct/structure/container/treap.h"
#include <vector>
#include <algorithm>
#include <limits>
#include <utility>
namespace tm_ {
using namespace altruct::container;
namespace dup = altruct::container::bst_duplicate_handling;
struct Cmp { // stateful comparator: direction is carried by the container
    bool desc; Cmp(bool d = false) : desc(d) {}
    bool operator()(int a, int b) const { return desc ? b < a : a < b; }
};
static int g_prio_range = 1;
static int g_last_prio = 0;
struct Rnd { Rnd() {} Rnd(int (*)()) {} int operator()() { return g_last_prio = (g_prio_range <= 1 ? 0 : mc::choose(g_prio_range)); } };
typedef std::pair<const int, int> V; // key, id

struct Ent { int key, id, cnt, prio; };
struct Model {
    int mode; bool desc; std::vector<Ent> v;
    bool lt(int a, int b) const { return desc ? b < a : a < b; }
    int lower(int k) const { int i = 0; while (i < (int)v.size() && lt(v[i].key, k)) i++; return i; }
    int upper(int k) const { int i = 0; while (i < (int)v.size() && !lt(k, v[i].key)) i++; return i; }
    int total() const { int s = 0; for (auto& e : v) s += e.cnt; return s; }
};
template <class C> struct is_bst { enum { value = 0 }; };
template <class T, int D, class A> struct is_bst<binary_search_tree<int, T, D, Cmp, A>> { enum { value = 1 }; };

template <class C> struct Sys {
    C c; Model m;
    std::vector<std::pair<int, typename C::iterator>> its; // id -> iterator handed out at insertion
    Sys(int mode, bool desc) : c(Cmp(desc)) { m.mode = mode; m.desc = desc; }
    void drop_it(int id) { for (size_t i = 0; i < its.size(); i++) if (its[i].first == id) { its.erase(its.begin() + i); return; } }
};

template <class C, class IT> static uint64_t shape(const C& c, IT n, IT end, const Model& m, int& total) {
    if (n == end) return 1;
    int tl = 0, tr = 0;
    uint64_t l = shape(c, n.left(), end, m, tl), r = shape(c, n.right(), end, m, tr);
    int prio = 0; for (auto& e : m.v) if (e.id == n->second) prio = e.prio;
    total = tl + tr + n.count();
    MC_CHECK(n.size() == total, "subtree size %d of key %d, but it holds %d", n.size(), n->first, total);
    return mc::hash(l, r, n->first, n.count(), prio);
}
template <class C> static uint64_t canon(Sys<C>& s) {
    const C& c = s.c; int t; return mc::hash(shape(c, c.root(), c.end(), s.m, t), s.m.desc);
}

template <class C> static void verify(Sys<C>& s, int kmin, int kmax) {
    if (!mc::fresh()) return;
    C& c = s.c; const C& cc = s.c; const Model& m = s.m; int n = (int)m.v.size(), total = m.total();
    MC_CHECK(c.size() == total && c.empty() == (total == 0), "size %d empty %d, expected size %d", c.size(), (int)c.empty(), total);
    // iteration in every flavour
    std::vector<typename C::iterator> at; std::vector<typename C::const_iterator> cat;
    { int i = 0; for (auto it = c.begin(); it != c.end(); ++it, i++) { MC_CHECK(i < n, "forward iteration yields more than %d elements", n); at.push_back(it);
        MC_CHECK(it->first == m.v[i].key && (*it).second == m.v[i].id, "element %d is (%d,#%d), expected (%d,#%d)", i, it->first, it->second, m.v[i].key, m.v[i].id);
        MC_CHECK(it.count() == m.v[i].cnt, "count of element %d is %d, expected %d", i, it.count(), m.v[i].cnt); }
      MC_CHECK(i == n, "forward iteration yields %d of %d elements", i, n); }
    { int i = 0; for (auto it = cc.begin(); it != cc.end() && i <= n; it++, i++) { cat.push_back(it); MC_CHECK(i < n && it->second == m.v[i].id && it.count() == m.v[i].cnt, "const iteration differs at %d", i); } MC_CHECK(i == n, "const iteration length"); }
    { int i = 0; for (auto it = c.cbegin(); it != c.cend() && i <= n; ++it, i++) MC_CHECK(i < n && it->second == m.v[i].id, "cbegin iteration differs"); MC_CHECK(i == n, "citeration length"); }
    { int i = n; auto it = c.end(); while (i > 0) { --it; --i; MC_CHECK(it == at[i], "backward iteration differs at %d", i); } MC_CHECK(it == c.begin(), "begin not reached backwards"); }
    { int i = n; for (auto it = c.rbegin(); it != c.rend(); ++it) { MC_CHECK(i > 0, "reverse iteration too long"); --i; MC_CHECK((*it).second == m.v[i].id, "reverse iteration differs at %d", i); } MC_CHECK(i == 0, "reverse iteration too short"); }
    { int i = n; for (auto it = cc.rbegin(); it != cc.rend() && i >= 0; ++it) { --i; MC_CHECK(i >= 0 && (*it).second == m.v[i].id, "const reverse iteration differs"); } MC_CHECK(i == 0, "const reverse length"); }
    { int i = n; for (auto it = cc.crbegin(); it != cc.crend() && i >= 0; it++) { --i; MC_CHECK(i >= 0 && (*it).second == m.v[i].id, "crbegin differs"); } MC_CHECK(i == 0, "crbegin length"); }
    at.push_back(c.end()); cat.push_back(cc.end());
    for (int i = 0; i < n; i++) { auto a = at[i]; auto b = a++; MC_CHECK(b == at[i] && a == at[i + 1], "post increment"); auto d = a--; MC_CHECK(d == at[i + 1] && a == at[i], "post decrement"); auto e = cat[i]; e++; MC_CHECK(e == cat[i + 1], "const increment"); e--; MC_CHECK(e == cat[i], "const decrement"); MC_CHECK(cat[i] == typename C::const_iterator(at[i]), "iterator to const_iterator"); }
    // iterators handed out earlier still denote their elements
    for (auto& p : s.its) { bool f = false; for (int i = 0; i < n; i++) if (m.v[i].id == p.first) { f = true; MC_CHECK(p.second == at[i] && p.second->second == p.first, "iterator to surviving element #%d became invalid", p.first); } (void)f; }
    // lookups for every key in and around the domain
    for (int k = kmin - 1; k <= kmax + 1; k++) {
        int lo = m.lower(k), up = m.upper(k); int le = 0, ls = 0;
        for (int i = 0; i < up; i++) le += m.v[i].cnt; for (int i = 0; i < lo; i++) ls += m.v[i].cnt;
        MC_CHECK(c.find(k) == at[lo < up ? lo : n], "find(%d)", k); MC_CHECK(cc.find(k) == cat[lo < up ? lo : n], "const find(%d)", k);
        MC_CHECK(c.lower_bound(k) == at[lo], "lower_bound(%d)", k); MC_CHECK(cc.lower_bound(k) == cat[lo], "const lower_bound(%d)", k);
        MC_CHECK(c.upper_bound(k) == at[up], "upper_bound(%d)", k); MC_CHECK(cc.upper_bound(k) == cat[up], "const upper_bound(%d)", k);
        auto er = c.equal_range(k); MC_CHECK(er.first == at[lo] && er.second == at[up], "equal_range(%d)", k);
        auto cer = cc.equal_range(k); MC_CHECK(cer.first == cat[lo] && cer.second == cat[up], "const equal_range(%d)", k);
        MC_CHECK(c.count(k) == le - ls, "count(%d)=%d, expected %d", k, c.count(k), le - ls);
        MC_CHECK(c.count_less(k) == ls, "count_less(%d)=%d, expected %d", k, c.count_less(k), ls);
        MC_CHECK(c.count_less_or_equal(k) == le, "count_less_or_equal(%d)=%d, expected %d", k, c.count_less_or_equal(k), le);
    }
    { int p = 0; for (int i = 0; i < n; i++) for (int j = 0; j < m.v[i].cnt; j++, p++) { MC_CHECK(c.find_kth(p) == at[i], "find_kth(%d)", p); MC_CHECK(cc.find_kth(p) == cat[i], "const find_kth(%d)", p); }
      MC_CHECK(c.find_kth(p) == c.end() && cc.find_kth(p + 3) == cc.end(), "find_kth past the end"); }
    if (m.mode != dup::COUNT) for (int i = 0; i <= n; i++) {
        MC_CHECK(at[i].pos() == i && cat[i].pos() == i, "pos() of element %d is %d", i, at[i].pos());
        for (int j = 0; j <= n; j++) { MC_CHECK(at[i].add(j - i) == at[j], "add(%d) from %d", j - i, i); MC_CHECK(cat[i].add(j - i) == cat[j], "const add(%d) from %d", j - i, i); }
    }
}
template <class C> static void verify_cmp(Sys<C>& a, Sys<C>& b) { // lexicographic comparison of the stored entries' keys
    if (!mc::fresh() || a.m.desc != b.m.desc) return;
    std::vector<int> x, y; for (auto& e : a.m.v) x.push_back(a.m.desc ? -e.key : e.key); for (auto& e : b.m.v) y.push_back(a.m.desc ? -e.key : e.key);
    const C &p = a.c, &q = b.c;
    MC_CHECK((p == q) == (x == y) && (p != q) == (x != y), "== of %s and %s", mc::show(x).c_str(), mc::show(y).c_str());
    MC_CHECK((p < q) == (x < y) && (p > q) == (x > y) && (p <= q) == (x <= y) && (p >= q) == (x >= y), "order of %s and %s", mc::show(x).c_str(), mc::show(y).c_str());
}

static int g_next_id;
template <class C> static void do_insert(Sys<C>& s, int k, int cnt) {
    Model& m = s.m; int id = g_next_id++; g_last_prio = 0;
    mc::trace("  insert(%d, x%d) #%d", k, cnt, id);
    typename C::iterator it = s.c.insert(V(k, id), cnt);
    int lo = m.lower(k), up = m.upper(k);
    if (lo == up || m.mode == dup::STORE) { m.v.insert(m.v.begin() + up, Ent{k, id, m.mode == dup::COUNT ? cnt : 1, g_last_prio}); s.its.push_back({id, it}); }
    else { if (m.mode == dup::COUNT) m.v[lo].cnt += cnt; m.v[lo].prio = g_last_prio; id = m.v[lo].id; }
    MC_CHECK(it != s.c.end() && it->first == k && it->second == id, "insert returned a wrong iterator");
}
template <class C> static void model_erase(Sys<C>& s, int i, int cnt) {
    Model& m = s.m;
    if (m.mode == dup::COUNT && cnt < m.v[i].cnt) { m.v[i].cnt -= cnt; return; }
    s.drop_it(m.v[i].id); m.v.erase(m.v.begin() + i);
}
template <class C> static typename C::iterator nth(Sys<C>& s, int i) { auto it = s.c.begin(); while (i--) ++it; return it; }
template <class C> static void do_erase_key(Sys<C>& s, int k, int cnt, bool deflt) {
    mc::trace("  erase(key %d, x%d)", k, deflt ? -1 : cnt);
    if (deflt) s.c.erase(k), cnt = std::numeric_limits<int>::max(); else s.c.erase(k, cnt);
    int lo = s.m.lower(k), up = s.m.upper(k);
    if (s.m.mode == dup::STORE) while (up > lo) model_erase(s, --up, 1); else if (lo < up) model_erase(s, lo, cnt);
}
template <class C> static void do_erase_at(Sys<C>& s, int i, int cnt) {
    mc::trace("  erase(iterator %d, x%d)", i, cnt); s.c.erase(typename C::const_iterator(nth(s, i)), cnt); model_erase(s, i, cnt);
}
template <class C> static void do_erase_range(Sys<C>& s, int b, int e, int cnt, bool deflt) {
    mc::trace("  erase(range [%d,%d))", b, e); auto ib = nth(s, b), ie = nth(s, e);
    auto r = deflt ? s.c.erase(typename C::const_iterator(ib), typename C::const_iterator(ie)) : s.c.erase(typename C::const_iterator(ib), typename C::const_iterator(ie), cnt);
    if (deflt) cnt = std::numeric_limits<int>::max();
    MC_CHECK(r == ie, "range erase returned an iterator other than the end of the range");
    for (int i = e; i > b;) model_erase(s, --i, cnt);
}
template <class C> static typename std::enable_if<is_bst<C>::value>::type do_rotate(Sys<C>& s, int i, bool left) {
    auto it = nth(s, i); if ((left ? it.right() : it.left()) == s.c.end()) return;
    mc::trace("  rotate_%s(%d)", left ? "left" : "right", i);
    auto up = left ? s.c.rotate_left(it) : s.c.rotate_right(it); MC_CHECK((left ? up.left() : up.right()) == it, "rotation result");
}
template <class C> static typename std::enable_if<!is_bst<C>::value>::type do_rotate(Sys<C>&, int, bool) {}
} // namespace tm_
