// C03 binary heap. Histories over insert(k)/pop/rebuild-after-write/drain/sort against a multiset.
// MC_BOUNDS: histories of insert(0..3)/pop/overwrite+rebuild up to 8 (quick) / 11 (thorough) operations with visited-state merging on the exact array; all arrays over {0..2} up to length 8 (quick) / 9, all permutations up to 8 / 9 elements, three comparators (less, greater, key-only); arrays of every length up to 100 and lengths up to 650 (3500) in 7 orders and 3 spreads, histories of up to 2000 insertions with 4 removal patterns
#include "mc.h"
#include "large.h"
#include "altruct/structure/container/binary_heap.h"
#include <algorithm>
#include <set>
using namespace altruct::container;
struct E { int key, id; bool operator==(const E& o) const { return key == o.key && id == o.id; } };
struct by_key { bool operator()(const E& a, const E& b) const { return a.key < b.key; } };
struct stateful { const int* rank; bool operator()(int a, int b) const { return rank[a] < rank[b]; } };

template <class CMP> static void history(CMP cmp, std::vector<E> init) {
    typedef binary_heap<E, CMP> heap;
    heap h(init.begin(), init.end(), cmp);
    std::vector<E> model = init; int id = 100;
    auto less_id = [](const E& a, const E& b) { return a.id < b.id; };
    auto verify = [&](const char* what) {
        MC_CHECK(h.size() == model.size(), "%s: size %d, expected %d", what, (int)h.size(), (int)model.size());
        std::vector<E> a(h.v.begin(), h.v.end()), b = model;
        std::sort(a.begin(), a.end(), less_id); std::sort(b.begin(), b.end(), less_id);
        MC_CHECK(a == b, "%s: heap lost or invented elements", what);
        if (!model.empty()) for (auto& e : model) MC_CHECK(!cmp(e, h.front()), "%s: front key %d is not minimal (%d is smaller)", what, h.front().key, e.key);
    };
    verify("after construction");
    int depth = mc::tier(8, 11);
    for (int i = 0; i < depth; i++) {
        mc::H k; k(depth - i); for (auto& e : h.v) k(e.key); k(h.v.size());
        if (mc::seen(k)) break; // equal arrays of keys have equal futures (ids are only names)
        mc::state(k);
        int o = mc::choose(7);
        if (o < 4) { mc::trace("insert %d", o); E e{o, id++}; h.insert(e); model.push_back(e); verify("insert"); }
        else if (o == 4) {
            if (model.empty()) break;
            E f = h.front(); mc::trace("pop -> %d", f.key); h.pop_front();
            auto it = std::find(model.begin(), model.end(), f); MC_CHECK(it != model.end(), "front is not an element"); model.erase(it); verify("pop");
        } else if (o == 5) { // overwrite one element and rebuild
            if (model.empty()) break;
            int idx = mc::choose((int)h.v.size()), val = mc::choose(2) * 3; mc::trace("v[%d]=%d; rebuild", idx, val);
            auto it = std::find(model.begin(), model.end(), h.v[idx]); it->key = val; h.v[idx].key = val; h.rebuild(); verify("rebuild");
        } else break; // finish
        mc::op();
    }
    // drain a copy: sorted and complete; sort another copy
    heap h2(h), h3(h); 
    int n = (int)model.size(); std::vector<E> out;
    while (h2.size()) { out.push_back(h2.front()); h2.pop_front(); }
    h3.sort();
    MC_CHECK((int)out.size() == n && (int)h3.v.size() == n, "drain/sort changed the number of elements");
    for (auto* s : {&out, &h3.v}) {
        for (int i = 1; i < n; i++) MC_CHECK(!cmp((*s)[i], (*s)[i - 1]), "%s not in order", s == &out ? "drain" : "sort");
        std::vector<E> a = *s, b = model; std::sort(a.begin(), a.end(), less_id); std::sort(b.begin(), b.end(), less_id);
        MC_CHECK(a == b, "drain/sort lost elements");
    }
    MC_CHECK(h.size() == (size_t)n, "copy is not independent"); verify("after copies were drained");
}
struct gt { bool operator()(const E& a, const E& b) const { return a.key > b.key; } };
MC_SCENARIO(history_min, 32) { int n = mc::choose(3); std::vector<E> init; for (int i = 0; i < n; i++) init.push_back(E{2 - i, i}); history(by_key(), init); }
MC_SCENARIO(history_max, 32) { int n = mc::choose(3); std::vector<E> init; for (int i = 0; i < n; i++) init.push_back(E{i + 1, i}); history(gt(), init); }

template <class CMP> static void arr(std::vector<int> a, CMP cmp) {
    std::vector<int> s = a; std::stable_sort(s.begin(), s.end(), cmp);
    std::vector<int> src = a;
    binary_heap<int, CMP> h(src, cmp); // from vector
    MC_CHECK(src == a, "constructor changed its source");
    binary_heap<int, CMP> g(a.begin(), a.end(), cmp), l(cmp); // from range, by insertion
    for (int x : a) l.insert(x);
    binary_heap<int, CMP> z(a.size(), cmp); MC_CHECK(z.size() == a.size(), "sized constructor"); z.v = a; z.rebuild();
    binary_heap<int, CMP>* hs[] = {&h, &g, &l, &z};
    auto eq = [&](int x, int y) { return !cmp(x, y) && !cmp(y, x); };
    for (auto* p : hs) {
        binary_heap<int, CMP> q(*p);
        p->sort();
        std::vector<int> o; while (q.size()) { o.push_back(q.front()); q.pop_front(); }
        MC_CHECK(o.size() == s.size() && p->v.size() == s.size(), "sizes of %s", mc::show(a).c_str());
        for (size_t i = 0; i < s.size(); i++) MC_CHECK(eq(o[i], s[i]) && eq(p->v[i], s[i]), "array %s: drained %s sorted %s", mc::show(a).c_str(), mc::show(o).c_str(), mc::show(p->v).c_str());
        std::multiset<int> m1(a.begin(), a.end()), m2(o.begin(), o.end()), m3(p->v.begin(), p->v.end());
        MC_CHECK(m1 == m2 && m1 == m3, "array %s: elements changed", mc::show(a).c_str());
        mc::op(2);
    }
    mc::state(mc::H().range(a));
}
MC_SCENARIO(arrays, 32) {
    int c = mc::choose(3), n = mc::choose(mc::tier(9, 10)); std::vector<int> a; for (int i = 0; i < n; i++) a.push_back(mc::choose(3));
    static const int rank[] = {1, 0, 2}; mc::trace("cmp %d array %s", c, mc::show(a).c_str());
    if (c == 0) arr(a, std::less<int>()); else if (c == 1) arr(a, std::greater<int>()); else arr(a, stateful{rank});
}
MC_SCENARIO(permutations, 32) {
    int n = mc::tier(8, 9); std::vector<int> left, a; for (int i = 0; i < n; i++) left.push_back(i);
    while (!left.empty()) { int i = mc::choose((int)left.size()); a.push_back(left[i]); left.erase(left.begin() + i); }
    mc::trace("permutation %s", mc::show(a).c_str()); arr(a, std::less<int>()); 
}
// large arrays: every length of the family, order and spread of keys; then a long run of insertions and removals against a sorted model
MC_SCENARIO(large_arrays, 8) { int n = 9 + mc::choose(mc::tier(120, 300)); if (n > 100) n = (n - 90) * 17; int o = mc::choose(lg::NORDERS), sp = mc::choose(3); mc::trace("%d keys in order %d, spread %d", n, o, sp); std::vector<int> a = lg::order(n, o); for (auto& x : a) x = sp == 0 ? x : sp == 1 ? x / 3 : x % 4; if (o % 2) arr(a, std::less<int>()); else arr(a, std::greater<int>()); }
MC_SCENARIO(large_history, 8) { static const int N[] = {30, 64, 127, 128, 500, 2000}; int n = N[mc::choose(6)], o = mc::choose(lg::NORDERS), sp = mc::choose(3), pat = mc::choose(4); mc::state(mc::H()(n)(o)(sp)(pat)); std::vector<int> a = lg::order(n, o); for (auto& x : a) x = sp == 0 ? x : sp == 1 ? x / 3 : x % 4; binary_heap<int> h; std::multiset<int> m; auto pop = [&] { if (m.empty()) return; MC_CHECK(h.front() == *m.begin(), "front is %d, expected %d, with %d elements", h.front(), *m.begin(), (int)m.size()); h.pop_front(); m.erase(m.begin()); };
    for (int i = 0; i < n; i++) { h.insert(a[i]); m.insert(a[i]); mc::op(); MC_CHECK(h.front() == *m.begin() && h.size() == m.size(), "front is %d, expected %d, after %d insertions", h.front(), *m.begin(), i + 1); int k = pat == 0 ? 0 : pat == 1 ? i % 2 : pat == 2 ? (i % 50 == 49 ? 30 : 0) : (i % 3 == 2 ? 2 : 0); while (k-- > 0) pop(); } while (!m.empty()) pop(); MC_CHECK(h.size() == 0, "the heap keeps %d elements", (int)h.size()); }
