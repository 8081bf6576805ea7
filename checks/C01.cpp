// C01 ordered tree containers against an ordered multiset.
// MC_BOUNDS: every history of insert (x1/x2), erase by key / iterator / range / count, clear, copy, move, swap, rotation (plain tree) with visited-state merging on the exact tree shape (keys, counts, priorities): one container up to 7-9 (quick) / 8-11 (thorough) operations over 2-4 keys and 5 elements, treap priorities 0..2 all resolved; element lifetimes and node allocations over every history of 3 (4) operations on two containers with different allocators; two containers with independent comparator directions up to 4 / 5 operations; trees of 33..300 (1100) elements in 7 insertion orders, 3 spreads of keys and 7 erasure orders
// MC_ASSUME: element identity is invisible to the containers (templates are parametric in the mapped value), so states are merged modulo element names
#include <memory>
#include "tree_model.h"
#include "large.h"
using namespace tm_;

template <class C> static void single(int mode, int keys, int maxsz, int prios, int depth, bool desc) {
    g_prio_range = prios; g_next_id = 0;
    Sys<C> s(mode, desc);
    verify(s, 0, keys - 1);
    for (int d = 0; d < depth; d++) {
        uint64_t k = canon(s); mc::state(k);
        if (mc::seen(mc::hash(k, depth - d))) return;
        int n = (int)s.m.v.size(), total = s.m.total();
        // simplest first: insert, erase key, erase at, insert x2, erase range, erase with count, clear, rotate, insert_before, copy
        int nops = 9; int o = mc::choose(nops);
        switch (o) {
        case 0: { if (total >= maxsz) return; do_insert(s, mc::choose(keys), 1); break; }
        case 1: { if (!n) return; do_erase_key(s, mc::choose(keys), 0, true); break; }
        case 2: { if (!n) return; do_erase_at(s, mc::choose(n), 1); break; }
        case 3: { if (mode == dup::STORE && d > depth - 3) return; if (total + 1 >= maxsz) return; do_insert(s, mc::choose(keys), 2); break; }
        case 4: { if (!n) return; int b = mc::choose(n + 1), e = b + mc::choose(n + 1 - b); do_erase_range(s, b, e, 1, mc::choose(mode == dup::COUNT ? 2 : 1) == 0); break; }
        case 5: { if (mode != dup::COUNT || !n) return; int q = mc::choose(2); int k2 = mc::choose(keys); do_erase_key(s, k2, q + 1, false); break; }
        case 6: { if (!n) { if (d > 0) return; } s.c.clear(); mc::trace("  clear()"); s.m.v.clear(); s.its.clear(); break; }
        case 7: { if (!n || !is_bst<C>::value) return; int i = mc::choose(n); do_rotate(s, i, mc::choose(2)); break; }
        case 8: { // insert_before, only where the documented order is kept
            if (mode != dup::STORE || total >= maxsz) return;
            int p = mc::choose(n + 1), kk = mc::choose(keys);
            if ((p > 0 && s.m.lt(kk, s.m.v[p - 1].key)) || (p < n && s.m.lt(s.m.v[p].key, kk))) return;
            int id = g_next_id++; g_last_prio = 0; mc::trace("  insert_before(%d, key %d)", p, kk);
            auto it = s.c.insert_before(typename C::const_iterator(nth(s, p)), V(kk, id));
            s.m.v.insert(s.m.v.begin() + p, Ent{kk, id, 1, g_last_prio}); s.its.push_back({id, it}); break; }
        }
        mc::op(); verify(s, 0, keys - 1);
    }
}
template <class C> static void pair_(int mode, int keys, int prios, int depth) {
    g_prio_range = prios; g_next_id = 0;
    Sys<C> a(mode, false), b(mode, true); // opposite comparators: they must travel with copies and swaps
    auto& e = mc::choose(2) ? a : b; // which one starts filled
    do_insert(e, 1, 1); do_insert(e, 0, 2); do_insert(e, 2, 1);
    for (int d = 0; d < depth; d++) {
        uint64_t k = mc::hash(canon(a), canon(b)); mc::state(k);
        if (mc::seen(mc::hash(k, depth - d))) return;
        int o = mc::choose(9); Sys<C>& x = mc::choose(2) ? b : a; Sys<C>& y = &x == &a ? b : a;
        int n = (int)x.m.v.size();
        switch (o) {
        case 0: do_insert(x, mc::choose(keys), 1); break;
        case 1: if (!n) return; do_erase_at(x, mc::choose(n), 1); break;
        case 2: mc::trace("  x = y"); x.c = y.c; x.m = y.m; x.its.clear(); break;
        case 3: mc::trace("  swap"); if (mc::choose(2)) std::swap(x.c, y.c); else x.c.swap(y.c); std::swap(x.m, y.m); std::swap(x.its, y.its); break;
        case 4: { mc::trace("  x = C(y) (copy construct, move assign)"); C t(y.c); x.c = std::move(t); x.m = y.m; x.its.clear(); break; }
        case 5: { mc::trace("  t(move(x)); x reinserted from t");  C t(std::move(x.c)); x.c = t; x.its.clear(); break; }
        case 6: { mc::trace("  x.clear()"); x.c.clear(); x.m.v.clear(); x.its.clear(); break; }
        case 7: { mc::trace("  x = x"); C& r = x.c; x.c = r; x.its.clear(); break; }
        case 8: { // construct from a range
            std::vector<V> v; for (auto& q : y.m.v) for (int i = 0; i < q.cnt; i++) v.push_back(V(q.key, q.id));
            mc::trace("  x = C(begin, end)"); g_prio_range = 1; x.c = C(v.begin(), v.end(), Cmp(y.m.desc)); g_prio_range = prios; x.m = y.m; x.its.clear(); for (auto& q : x.m.v) q.prio = 0; break; }
        }
        mc::op(); verify(a, 0, keys - 1); verify(b, 0, keys - 1); verify_cmp(a, b); verify_cmp(b, a);
    }
}
template <int D> using B = binary_search_tree<int, V, D, Cmp>;
template <int D> using T = treap<int, V, D, Cmp, Rnd>;

// the set flavour (value is the key) and initializer lists, as most users write it
static void set_flavour() {
    std::vector<int> a; int n = mc::choose(6); for (int i = 0; i < n; i++) a.push_back(mc::choose(4));
    binary_search_tree<int> b(a.begin(), a.end()); treap<int> t(a.begin(), a.end());
    binary_search_tree<int, int, dup::COUNT> bc(a.begin(), a.end()); treap<int, int, dup::STORE> ts(a.begin(), a.end());
    std::vector<int> s = a; std::sort(s.begin(), s.end()); std::vector<int> u = s; u.erase(std::unique(u.begin(), u.end()), u.end());
    MC_CHECK(std::vector<int>(b.begin(), b.end()) == u && std::vector<int>(t.cbegin(), t.cend()) == u, "set of %s", mc::show(a).c_str());
    MC_CHECK(std::vector<int>(bc.begin(), bc.end()) == u && bc.size() == n, "counted set of %s", mc::show(a).c_str());
    MC_CHECK(std::vector<int>(ts.begin(), ts.end()) == s && ts.size() == n, "multiset of %s", mc::show(a).c_str());
    for (int k = -1; k <= 4; k++) { int c = (int)std::count(a.begin(), a.end(), k); MC_CHECK(b.count(k) == !!c && t.count(k) == !!c && bc.count(k) == c && ts.count(k) == c, "count"); }
    std::vector<int> w = {2, 1, 2}; binary_search_tree<int> il{2, 1, 2}; treap<int> tl{2, 1, 2}; MC_CHECK(il.size() == 2 && tl.size() == 2 && *il.begin() == 1, "initializer list");
    mc::op(6); mc::state(mc::H().range(a));
}
// lifetimes: every stored element is one live object, destroyed exactly once; every node allocated is given back, to the allocator it came from
struct Life { int id; static std::vector<const Life*> live; static void add(const Life* p) { MC_CHECK(std::find(live.begin(), live.end(), p) == live.end(), "an element is constructed over a live one"); live.push_back(p); } Life(int id) : id(id) { add(this); } Life(const Life& r) : id(r.id) { MC_CHECK(std::find(live.begin(), live.end(), &r) != live.end(), "a dead element is copied"); add(this); } ~Life() { auto it = std::find(live.begin(), live.end(), this); MC_CHECK(it != live.end(), "an element is destroyed twice or was never constructed"); live.erase(it); } Life& operator=(const Life&) = default; };
std::vector<const Life*> Life::live;
static std::vector<std::pair<void*, int>> g_blocks; // address, allocator
template <class N> struct Pool { typedef N value_type; int id; Pool(int id = 0) : id(id) {} N* allocate(size_t n) { N* p = std::allocator<N>().allocate(n); g_blocks.push_back({p, id}); return p; } void deallocate(N* p, size_t n) { auto it = std::find(g_blocks.begin(), g_blocks.end(), std::make_pair((void*)p, id)); MC_CHECK(it != g_blocks.end(), "memory is given back twice or to another allocator"); g_blocks.erase(it); std::allocator<N>().deallocate(p, n); } template <class... A> void construct(N* p, A&&... a) { ::new ((void*)p) N(std::forward<A>(a)...); } void destroy(N* p) { p->~N(); } };
typedef std::pair<const int, Life> LV;
template <int D> using LB = binary_search_tree<int, LV, D, Cmp, Pool<bst_node<LV>>>;
template <int D> using LTr = treap<int, LV, D, Cmp, Rnd, Pool<bst_node<LV>>>;
static LB<0>* mk(LB<0>*, int id) { return new LB<0>(Cmp(false), Pool<bst_node<LV>>(id)); } static LB<1>* mk(LB<1>*, int id) { return new LB<1>(Cmp(false), Pool<bst_node<LV>>(id)); } static LB<2>* mk(LB<2>*, int id) { return new LB<2>(Cmp(false), Pool<bst_node<LV>>(id)); }
template <int D> static LTr<D>* mk(LTr<D>*, int id) { return new LTr<D>(Cmp(false), Rnd(), Pool<bst_node<LV>>(id)); }
template <class C> static void lifetimes(int depth) { Life::live.clear(); g_blocks.clear(); g_prio_range = mc::tier(1, 2); int next = 0; { std::unique_ptr<C> a(mk((C*)0, 1)), b(mk((C*)0, 2)); for (auto c : {a.get(), b.get()}) for (int k : {1, 0}) c->insert(LV(k, Life(next++))); mc::H h;
    for (int d = 0; d < depth; d++) { C& x = mc::choose(2) ? *b : *a; C& y = &x == a.get() ? *b : *a; int o = mc::choose(9); h(&x == a.get())(o); switch (o) { case 0: { int k = mc::choose(3); h(k); mc::trace("insert %d", k); x.insert(LV(k, Life(next++)), 2); h(g_last_prio); break; } case 1: { int k = mc::choose(3); h(k); mc::trace("erase %d", k); x.erase(k); break; } case 2: { if (x.empty()) mc::cut(); mc::trace("erase the first"); x.erase(x.begin()); break; } case 3: mc::trace("clear"); x.clear(); break; case 4: mc::trace("x = y"); x = y; break; case 5: mc::trace("x = move(y)"); x = std::move(y); break; case 6: mc::trace("swap"); x.swap(y); break; case 7: { mc::trace("copy construct, move assign"); C t(y); x = std::move(t); break; } case 8: { mc::trace("move construct and back"); C t(std::move(y)); x = t; break; } }
        size_t n = 0; for (auto c : {a.get(), b.get()}) for (auto it = c->begin(); it != c->end(); ++it) { n++; MC_CHECK(std::find(Life::live.begin(), Life::live.end(), &it->second) != Life::live.end(), "a container holds a dead element"); } mc::op(); mc::state(h.h); MC_CHECK(Life::live.size() == n && g_blocks.size() == n + 2, "%zu live elements and %zu blocks for %zu stored elements", Life::live.size(), g_blocks.size(), n); } }
    MC_CHECK(Life::live.empty() && g_blocks.empty(), "%zu elements and %zu blocks left behind", Life::live.size(), g_blocks.size()); }
// large trees: every insertion order, spread of keys and erasure order of the families, against counts per key
static lg::Lcg g_lcg(1); struct LR { LR() {} LR(int (*)()) {} int operator()() { return (int)(g_lcg() >> 1); } };
template <class C> static void large_verify(const C& c, const std::vector<int>& cnt, int mode, const char* when) {
    std::vector<int> seq, all; for (int k = 0; k < (int)cnt.size(); k++) { for (int i = 0; i < (mode == dup::STORE ? cnt[k] : !!cnt[k]); i++) seq.push_back(k); for (int i = 0; i < cnt[k]; i++) all.push_back(k); } mc::op();
    MC_CHECK(c.size() == (int)all.size() && c.empty() == all.empty(), "%s: size is %d, expected %d", when, c.size(), (int)all.size()); std::vector<int> f, r; for (auto it = c.begin(); it != c.end(); ++it) { f.push_back(*it); if (mode == dup::COUNT) MC_CHECK(it.count() == cnt[*it], "%s: %d occurs %d times", when, *it, it.count()); } MC_CHECK(f == seq, "%s: the sequence of %d elements differs", when, (int)seq.size()); for (auto it = c.end(); it != c.begin();) r.push_back(*--it); std::reverse(r.begin(), r.end()); MC_CHECK(r == seq, "%s: backwards", when);
    for (int i = 0; i < (int)all.size(); i += 1 + (int)all.size() / 100) { auto it = c.find_kth(i); MC_CHECK(it != c.end() && *it == all[i], "%s: element %d", when, i); int p = it.pos(); MC_CHECK(p <= i && p >= 0 && all[p] == all[i] && (mode == dup::STORE ? p == i : p == 0 || all[p - 1] != all[i]), "%s: position of element %d is %d", when, i, p); } MC_CHECK(c.find_kth((int)all.size()) == c.end(), "%s: element past the last", when);
    int less = 0; for (int k = 0; k < (int)cnt.size(); less += cnt[k++]) { if ((int)cnt.size() > 120 && k % ((int)cnt.size() / 100) > 1) continue; MC_CHECK(c.count_less(k) == less && c.count_less_or_equal(k) == less + cnt[k] && c.count(k) == cnt[k], "%s: counts around %d", when, k); auto it = c.find(k); MC_CHECK((it != c.end()) == !!cnt[k] && (!cnt[k] || *it == k), "%s: find(%d)", when, k); auto lo = c.lower_bound(k), hi = c.upper_bound(k); int a = (int)(std::lower_bound(seq.begin(), seq.end(), k) - seq.begin()), b = (int)(std::upper_bound(seq.begin(), seq.end(), k) - seq.begin()); MC_CHECK((a < (int)seq.size() ? lo != c.end() && *lo == seq[a] : lo == c.end()) && (b < (int)seq.size() ? hi != c.end() && *hi == seq[b] : hi == c.end()), "%s: bounds of %d", when, k); auto er = c.equal_range(k); int d = 0; for (auto q = er.first; q != er.second; ++q) d++; MC_CHECK(d == b - a, "%s: equal_range of %d has %d", when, k, d); }
}
template <class C> static void large(int mode) {
    static const int N[] = {33, 65, 129, 300, 1100}; int n = N[mc::choose(mc::tier(4, 5))], o = mc::choose(lg::NORDERS), sp = mc::choose(3), eo = mc::choose(lg::NORDERS); mc::state(mc::H()(n)(o)(sp)(eo)(mode)); mc::trace("%d insertions in order %d, spread %d, erased in order %d", n, o, sp, eo); g_lcg = lg::Lcg(o + 3); int keys = sp == 0 ? n : sp == 1 ? n / 3 : 5; auto key = [&](int i) { return sp == 1 ? i / 3 % keys : i % keys; };
    C c; std::vector<int> cnt(keys); auto add = [&](C& c, std::vector<int>& cnt, int k) { c.insert(k); cnt[k] = mode == dup::IGNORE ? 1 : cnt[k] + 1; }; std::vector<int> ins = lg::order(n, o); for (int i = 0; i < n; i++) { add(c, cnt, key(ins[i])); if (i == n / 2) large_verify(c, cnt, mode, "half filled"); } large_verify(c, cnt, mode, "filled");
    C d(c); std::vector<int> dc = cnt; MC_CHECK(d == c && !(d < c), "copy differs"); std::vector<int> er = lg::order(keys, eo); for (int i = 0; i < keys; i++) { if (i == keys / 2) large_verify(c, cnt, mode, "half erased"); if (i == keys - 2) large_verify(c, cnt, mode, "almost erased"); int k = er[i]; if (mode != dup::STORE && i % 3 == 1 && cnt[k] > 1) { c.erase(k, 1); cnt[k]--; } else if (mode != dup::IGNORE && i % 3 == 2 && cnt[k] > 1) { c.erase(c.find(k), 1); cnt[k]--; } else { c.erase(k); cnt[k] = 0; } if (i % 5 == 4) add(c, cnt, er[i / 2]); } large_verify(c, cnt, mode, "erased"); large_verify(d, dc, mode, "copy");
    MC_CHECK(d != c, "different contents are equal"); int b = d.size() ? d.size() / 4 : 0; { auto lo = d.find_kth(b), hi = d.find_kth(d.size() - b); int kl = *lo; bool end = hi == d.end(); int kh = end ? keys : *hi; if (mode == dup::STORE) { int at = 0, e = d.size() - b, t; for (int k = 0; k < keys; k++) { t = dc[k]; dc[k] = std::max(0, std::min(at + t, b) - at) + std::max(0, at + t - std::max(at, e)); at += t; } } else for (int k = kl; k < kh; k++) dc[k] = 0; d.erase(lo, hi); } large_verify(d, dc, mode, "after erasing the middle half"); c = d; cnt = dc; d.clear(); large_verify(d, std::vector<int>(keys, 0), mode, "cleared"); large_verify(c, cnt, mode, "assigned"); for (int i = 0; i < n; i += 2) add(c, cnt, key(ins[i])); large_verify(c, cnt, mode, "refilled");
}
template <int D> using LB_ = binary_search_tree<int, int, D>; template <int D> using LT_ = treap<int, int, D, std::less<int>, LR>;
MC_SETUP(setup) {
    mc::add("large_bst_ignore", [] { large<LB_<dup::IGNORE>>(dup::IGNORE); }, 4); mc::add("large_bst_count", [] { large<LB_<dup::COUNT>>(dup::COUNT); }, 4); mc::add("large_bst_store", [] { large<LB_<dup::STORE>>(dup::STORE); }, 4); mc::add("large_treap_ignore", [] { large<LT_<dup::IGNORE>>(dup::IGNORE); }, 4); mc::add("large_treap_count", [] { large<LT_<dup::COUNT>>(dup::COUNT); }, 4); mc::add("large_treap_store", [] { large<LT_<dup::STORE>>(dup::STORE); }, 4);
    int q = mc::thorough() ? 1 : 0;
    mc::add("bst_ignore", [=] { single<B<dup::IGNORE>>(dup::IGNORE, 4, 9, 1, 9 + 2 * q, false); }, 32);
    mc::add("bst_count", [=] { single<B<dup::COUNT>>(dup::COUNT, 3, 6, 1, 9 + 2 * q, false); }, 32);
    mc::add("bst_store", [=] { single<B<dup::STORE>>(dup::STORE, 2, 5, 1, 9 + 2 * q, false); }, 32);
    mc::add("bst_store_desc", [=] { single<B<dup::STORE>>(dup::STORE, 3, 4, 1, 8 + q, true); }, 32);
    mc::add("treap_ignore", [=] { single<T<dup::IGNORE>>(dup::IGNORE, 4, 9, 3, 7 + q, false); }, 64);
    mc::add("treap_count", [=] { single<T<dup::COUNT>>(dup::COUNT, 3, 5, 2, 8 + q, false); }, 64);
    mc::add("treap_store", [=] { single<T<dup::STORE>>(dup::STORE, 2, 5, 2, 8 + q, false); }, 64);
    mc::add("treap_store_desc", [=] { single<T<dup::STORE>>(dup::STORE, 3, 4, 2, 7 + q, true); }, 64);
    mc::add("pair_bst_ignore", [=] { pair_<B<dup::IGNORE>>(dup::IGNORE, 3, 1, 4 + q); }, 32);
    mc::add("pair_bst_count", [=] { pair_<B<dup::COUNT>>(dup::COUNT, 3, 1, 4 + q); }, 32);
    mc::add("pair_bst_store", [=] { pair_<B<dup::STORE>>(dup::STORE, 3, 1, 4 + q); }, 32);
    mc::add("pair_treap_ignore", [=] { pair_<T<dup::IGNORE>>(dup::IGNORE, 3, 2, 4 + q); }, 32);
    mc::add("pair_treap_count", [=] { pair_<T<dup::COUNT>>(dup::COUNT, 3, 2, 4 + q); }, 32);
    mc::add("pair_treap_store", [=] { pair_<T<dup::STORE>>(dup::STORE, 3, 2, 4 + q); }, 32);
    mc::add("set_flavour", set_flavour, 16);
    mc::add("lifetimes_bst_ignore", [=] { lifetimes<LB<dup::IGNORE>>(3 + q); }, 16);
    mc::add("lifetimes_bst_count", [=] { lifetimes<LB<dup::COUNT>>(3 + q); }, 16);
    mc::add("lifetimes_bst_store", [=] { lifetimes<LB<dup::STORE>>(3 + q); }, 16);
    mc::add("lifetimes_treap_ignore", [=] { lifetimes<LTr<dup::IGNORE>>(3 + q); }, 16);
    mc::add("lifetimes_treap_count", [=] { lifetimes<LTr<dup::COUNT>>(3 + q); }, 16);
    mc::add("lifetimes_treap_store", [=] { lifetimes<LTr<dup::STORE>>(3 + q); }, 16);
}
