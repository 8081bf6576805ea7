// C08 element lifetimes and memory ownership of the tree containers, and the bounded contiguous allocator.
// MC_BOUNDS: every lifecycle history (insert, erase, erase range, clear, copy construct/assign, self assign, move construct/assign, swap, destroy, reconstruct) of 5 (quick) / 6 (thorough) operations on two containers, for plain tree, treap and rope with a counting allocator and with the bounded allocator; allocator histories of allocate/deallocate up to 9 / 11 operations at every capacity 0..4
// MC_ASSUME: AddressSanitizer detects stale accesses; the counting allocator and the element registry see every construction and release
#include "mc.h"
#include "altruct/structure/container/rope.h"
#include "altruct/structure/container/bounded_contiguous_allocator.h"
#include <set>
#include <map>
#include <memory>
#include <algorithm>
using namespace altruct::container;
namespace dup = altruct::container::bst_duplicate_handling;
static std::set<const void*>& live() { static std::set<const void*> s; return s; }
static std::map<const void*, size_t>& blocks() { static std::map<const void*, size_t> s; return s; }
struct El { // instrumented element; owns a heap cell so that bitwise copies show up
    int key; int* cell;
    El(int k = 0) : key(k), cell(new int(k)) { reg(); }
    El(const El& o) : key(o.get()), cell(new int(o.key)) { reg(); }
    El& operator=(const El& o) { chk(); int k = o.get(); key = k; *cell = k; return *this; }
    ~El() { chk(); delete cell; cell = nullptr; if (!live().erase(this)) mc::fail("element destroyed twice or never constructed"); }
    void reg() { if (!live().insert(this).second) mc::fail("element constructed twice at one address"); }
    void chk() const { if (!live().count(this)) mc::fail("access to an element that is not alive"); if (*cell != key) mc::fail("element corrupted"); }
    int get() const { chk(); return key; }
    bool operator<(const El& o) const { return get() < o.get(); }
    bool operator==(const El& o) const { return get() == o.get(); }
};
template <class T> struct CAlloc { // counting allocator
    typedef T value_type; CAlloc() {} template <class U> CAlloc(const CAlloc<U>&) {}
    T* allocate(size_t n) { T* p = (T*)std::malloc(n * sizeof(T)); blocks()[p] = n; return p; }
    void deallocate(T* p, size_t n) { auto it = blocks().find(p); if (it == blocks().end()) mc::fail("node released twice or never allocated"); if (it->second != n) mc::fail("node released with a wrong size"); blocks().erase(it); std::free(p); }
    void construct(T* p, const T& v) { ::new (p) T(v); }
    void construct(T* p, const El& v) { ::new (p) T(v); }
    void destroy(T* p) { p->~T(); }
};
struct Rnd { Rnd() {} Rnd(int (*)()) {} int operator()() { return mc::choose(2); } };
static bool g_rnd_fixed = false;
struct less_el { bool operator()(const El& a, const El& b) const { return a < b; } };
template <class N> using BA = bounded_contiguous_allocator<N>;
enum { CAP = 5 }; // bounded: nil + 4 elements
template <template <class> class A, int D> using Bst = binary_search_tree<El, El, D, less_el, A<bst_node<El>>>;
template <template <class> class A, int D> using Trp = treap<El, El, D, less_el, Rnd, A<bst_node<El>>>;
template <template <class> class A> using Rop = rope<El, Rnd, A<bst_node<El>>>;
template <class A> struct mk { static A al() { return A(); } };
template <class N> struct mk<BA<N>> { static BA<N> al() { return BA<N>(CAP); } };
template <class C> struct Ops;
template <template <class> class A, int D> struct Ops<Bst<A, D>> { typedef Bst<A, D> C; static C* fresh() { return new C(less_el(), mk<A<bst_node<El>>>::al()); } static void ins(C& c, int k) { c.insert(El(k)); } static void er(C& c, int i) { auto it = c.begin(); while (i--) ++it; c.erase(typename C::const_iterator(it)); } static void er2(C& c) { c.erase(c.cbegin(), c.cend()); } };
template <template <class> class A, int D> struct Ops<Trp<A, D>> { typedef Trp<A, D> C; static C* fresh() { return new C(less_el(), Rnd(), mk<A<bst_node<El>>>::al()); } static void ins(C& c, int k) { c.insert(El(k)); } static void er(C& c, int i) { auto it = c.begin(); while (i--) ++it; c.erase(typename C::const_iterator(it)); } static void er2(C& c) { c.erase(c.cbegin(), c.cend()); } };
template <template <class> class A> struct Ops<Rop<A>> { typedef Rop<A> C; static C* fresh() { return new C(Rnd(), mk<A<bst_node<El>>>::al()); } static void ins(C& c, int k) { int p = 0; while (p < c.size() && c[p].get() < k) p++; c.insert(p, El(k)); } static void er(C& c, int i) { c.erase(i); } static void er2(C& c) { c.erase(0, c.size()); } };

template <class C> static void lifecycle(int depth, bool ignore_dup, int bound) {
    typedef Ops<C> O; live().clear(); blocks().clear();
    C* c[2] = {O::fresh(), O::fresh()}; std::vector<int> m[2];
    int pre = mc::choose(3); for (int i = 0; i < pre; i++) { int k = i ? 0 : 1; O::ins(*c[0], k); m[0].push_back(k); std::sort(m[0].begin(), m[0].end()); }
    auto verify = [&](bool counted) {
        size_t tot = 0;
        for (int i = 0; i < 2; i++) { MC_CHECK(c[i]->size() == (int)m[i].size(), "container %d has size %d, expected %d", i, c[i]->size(), (int)m[i].size()); int j = 0; for (auto it = c[i]->begin(); it != c[i]->end(); ++it, ++j) { MC_CHECK(j < (int)m[i].size() && (*it).get() == m[i][j], "container %d differs from %s (copies not independent?)", i, mc::show(m[i]).c_str()); } MC_CHECK(j == (int)m[i].size(), "container %d iteration", i); tot += m[i].size(); }
        MC_CHECK(live().size() == tot, "%d elements alive, but the containers hold %d", (int)live().size(), (int)tot);
        if (counted) MC_CHECK(blocks().size() == tot + 2, "%d nodes allocated for %d elements (plus one sentinel each)", (int)blocks().size(), (int)tot);
    };
    bool counted = !blocks().empty(); verify(counted);
    for (int d = 0; d < depth; d++) {
        int o = mc::choose(11), x = mc::choose(2), y = 1 - x;
        switch (o) {
        case 0: { int k = mc::choose(2); if (ignore_dup && std::count(m[x].begin(), m[x].end(), k)) { O::ins(*c[x], k); break; }
                  if (bound && (int)m[x].size() == bound) { mc::trace("  insert into full"); bool thrown = false; try { O::ins(*c[x], k); } catch (const std::bad_alloc&) { thrown = true; } MC_CHECK(thrown, "insertion beyond the allocator's capacity did not fail"); break; }
                  mc::trace("  c%d.insert(%d)", x, k); O::ins(*c[x], k); m[x].push_back(k); std::sort(m[x].begin(), m[x].end()); break; }
        case 1: { if (m[x].empty()) goto done; int i = mc::choose((int)m[x].size()); mc::trace("  c%d.erase(%d)", x, i); O::er(*c[x], i); m[x].erase(m[x].begin() + i); break; }
        case 2: mc::trace("  c%d.clear()", x); c[x]->clear(); m[x].clear(); break;
        case 3: mc::trace("  c%d = c%d", x, y); *c[x] = *c[y]; m[x] = m[y]; break;
        case 4: { mc::trace("  c%d = c%d (self)", x, x); C& r = *c[x]; *c[x] = r; break; }
        case 5: { mc::trace("  c%d = C(c%d) moved", x, y); C t(*c[y]); *c[x] = std::move(t); m[x] = m[y]; break; }
        case 6: { mc::trace("  replace c%d by move-constructed", x); C* t = new C(std::move(*c[x])); delete c[x]; c[x] = t; break; }
        case 7: mc::trace("  swap (member %d)", x); if (x) c[0]->swap(*c[1]); else std::swap(*c[0], *c[1]); std::swap(m[0], m[1]); break;
        case 8: mc::trace("  delete c%d, copy of c%d", x, y); delete c[x]; c[x] = new C(*c[y]); m[x] = m[y]; break;
        case 9: mc::trace("  delete c%d, fresh", x); delete c[x]; c[x] = O::fresh(); m[x].clear(); break;
        case 10: if (m[x].empty()) goto done; mc::trace("  c%d.erase(all)", x); O::er2(*c[x]); m[x].clear(); break;
        }
        mc::op(); verify(counted); mc::state(mc::H().range(m[0]).range(m[1])(o)(x)(d));
    }
done:
    delete c[0]; delete c[1];
    MC_CHECK(live().empty(), "%d elements leaked", (int)live().size()); MC_CHECK(blocks().empty(), "%d nodes leaked", (int)blocks().size());
}
MC_SCENARIO(bounded_allocator, 16) {
    int cap = mc::choose(5), depth = mc::tier(9, 11), copied = mc::choose(2);
    BA<int> src(cap); std::unique_ptr<BA<int>> cp(copied ? new BA<int>(BA<double>(cap)) : nullptr); BA<int>& a = copied ? *cp : src;
    MC_CHECK((int)a.capacity() == cap, "capacity");
    std::vector<int*> held; std::set<int*> ever; int stamp = 0; std::map<int*, int> val;
    for (int d = 0; d < depth; d++) {
        int o = mc::choose(1 + (int)held.size());
        if (o == 0) {
            bool thrown = false; int* p = nullptr; try { p = a.allocate(1); } catch (const std::bad_alloc&) { thrown = true; }
            MC_CHECK(thrown == ((int)held.size() == cap), "allocation %s with %d of %d slots in use", thrown ? "failed" : "succeeded", (int)held.size(), cap);
            if (thrown) { try { a.allocate(2); MC_CHECK(false, "allocate(2) succeeded"); } catch (const std::bad_alloc&) {} return; }
            MC_CHECK(!std::count(held.begin(), held.end(), p), "the same slot handed out twice"); a.construct(p, ++stamp); val[p] = stamp; held.push_back(p); ever.insert(p);
            MC_CHECK((int)ever.size() <= cap, "more distinct slots than the capacity"); mc::trace("  allocate -> slot %d", (int)std::distance(ever.begin(), ever.find(p)));
            auto mm = std::minmax_element(held.begin(), held.end()); MC_CHECK(*mm.second - *mm.first < cap, "slots are not contiguous");
        } else { int* p = held[o - 1]; mc::trace("  deallocate #%d", o - 1); a.destroy(p); a.deallocate(p, 1); held.erase(held.begin() + o - 1); }
        for (int* p : held) MC_CHECK(*p == val[p], "slot content changed"); mc::op(); mc::state(mc::H()(cap)(held.size())(o)(d));
    }
    bool t = false; try { a.allocate(2); } catch (const std::bad_alloc&) { t = true; } MC_CHECK(t, "allocating two at once is not supported");
}
MC_SETUP(setup) {
    int q = mc::thorough() ? 1 : 0;
    mc::add("bst_ignore", [=] { lifecycle<Bst<CAlloc, dup::IGNORE>>(4 + q, true, 0); }, 64);
    mc::add("bst_store", [=] { lifecycle<Bst<CAlloc, dup::STORE>>(4 + q, false, 0); }, 64);
    mc::add("treap_store", [=] { lifecycle<Trp<CAlloc, dup::STORE>>(3 + q, false, 0); }, 64);
    mc::add("rope", [=] { lifecycle<Rop<CAlloc>>(3 + q, false, 0); }, 64);
    mc::add("bst_ignore_bounded", [=] { lifecycle<Bst<BA, dup::IGNORE>>(4 + q, true, CAP - 1); }, 64);
    mc::add("bst_store_bounded", [=] { lifecycle<Bst<BA, dup::STORE>>(4 + q, false, CAP - 1); }, 64);
    mc::add("treap_store_bounded", [=] { lifecycle<Trp<BA, dup::STORE>>(3 + q, false, CAP - 1); }, 64);
    mc::add("rope_bounded", [=] { lifecycle<Rop<BA>>(3 + q, false, CAP - 1); }, 64);
}
