// C02 rope against std::vector.
// MC_BOUNDS: every edit history of push_back/insert(pos|iterator)/erase(pos|iterator|range)/assignment through the reference/clear up to 4-6 (quick) / 5-7 (thorough) operations from the empty rope and 2 / 3 operations from every rope of up to 5 (7) elements with all priorities in 0..2 (0..1) resolved; two ropes with copy/move/swap/clear up to 4 / 5 operations; ropes of 20..400 (1500) elements built and erased in 7 orders each
#include "mc.h"
#include "large.h"
#include "altruct/structure/container/rope.h"
#include <vector>
#include <algorithm>
using namespace altruct::container;
static int g_range = 1;
struct Rnd { Rnd() {} Rnd(int (*)()) {} int operator()() { return g_range <= 1 ? 0 : mc::choose(g_range); } };
typedef rope<int, Rnd> R;
struct Sys { R r; std::vector<int> m; std::vector<std::pair<int, R::iterator>> its; };
static int g_next;
static void verify(Sys& s) {
    if (!mc::fresh()) return;
    R& r = s.r; const R& c = s.r; auto& m = s.m; int n = (int)m.size();
    MC_CHECK(r.size() == n && r.empty() == (n == 0), "size %d, expected %d", r.size(), n);
    std::vector<int> f(r.begin(), r.end()), cf(c.begin(), c.end()), b(r.rbegin(), r.rend()), cb(c.rbegin(), c.rend()), ccb(r.crbegin(), r.crend()), ccf(r.cbegin(), r.cend()), rm(m.rbegin(), m.rend());
    MC_CHECK(f == m && cf == m && ccf == m, "content %s, expected %s", mc::show(f).c_str(), mc::show(m).c_str());
    MC_CHECK(b == rm && cb == rm && ccb == rm, "reverse content %s, expected %s", mc::show(b).c_str(), mc::show(rm).c_str());
    for (int i = 0; i < n; i++) {
        MC_CHECK(r[i] == m[i] && c[i] == m[i] && r.at(i) == m[i] && c.at(i) == m[i] && *r.find_kth(i) == m[i] && *c.find_kth(i) == m[i], "element %d", i);
    }
    MC_CHECK(r.find_kth(n) == r.end() && c.find_kth(n) == c.end(), "find_kth(size)");
    for (int i = 0; i <= n; i++) {
        auto it = r.begin() + i; R::const_iterator ci = c.begin() + i;
        MC_CHECK(it.pos() == i && ci.pos() == i && it == r.find_kth(i) && ci == c.find_kth(i) && (it == r.end()) == (i == n), "iterator at %d", i);
        for (int j = 0; j <= n; j++) {
            auto jt = it; jt += (j - i); auto kt = it - (i - j); auto cj = ci; cj -= (i - j); auto ck = ci + (j - i);
            MC_CHECK(jt.pos() == j && kt == jt && cj.pos() == j && ck == cj, "iterator arithmetic %d -> %d", i, j);
            MC_CHECK((jt - it) == j - i && (cj - ci) == j - i, "iterator distance");
            MC_CHECK((it < jt) == (i < j) && (it > jt) == (i > j) && (it <= jt) == (i <= j) && (it >= jt) == (i >= j) && (it == jt) == (i == j) && (it != jt) == (i != j), "iterator order");
            MC_CHECK((ci < cj) == (i < j) && (ci > cj) == (i > j) && (ci <= cj) == (i <= j) && (ci >= cj) == (i >= j), "const iterator order");
            if (j < n) MC_CHECK(it[j - i] == m[j] && ci[j - i] == m[j], "iterator indexing");
        }
        if (i < n) { auto a = it; auto o = a++; MC_CHECK(o == it && a.pos() == i + 1, "++"); o = a--; MC_CHECK(a == it && o.pos() == i + 1, "--"); ++ci; MC_CHECK(ci.pos() == i + 1, "const ++"); --ci; MC_CHECK(ci.pos() == i, "const --"); }
    }
    for (auto& p : s.its) { auto w = std::find(m.begin(), m.end(), p.first); if (w != m.end()) MC_CHECK(*p.second == p.first && p.second.pos() == w - m.begin(), "iterator to surviving element %d", p.first); }
}
static void verify_cmp(const Sys& a, const Sys& b) {
    if (!mc::fresh()) return;
    auto &x = a.m, &y = b.m; const R &p = a.r, &q = b.r;
    MC_CHECK((p == q) == (x == y) && (p != q) == (x != y) && (p < q) == (x < y) && (p > q) == (x > y) && (p <= q) == (x <= y) && (p >= q) == (x >= y), "comparison of %s and %s", mc::show(x).c_str(), mc::show(y).c_str());
}
static void ins(Sys& s, int p, int how) {
    int id = g_next++; int n = (int)s.m.size();
    mc::trace("  insert at %d (how %d) value %d", p, how, id);
    if (p == n && how == 0) s.r.push_back(id); else if (how == 0) s.r.insert(p, id); else s.r.insert(R::const_iterator(s.r.find_kth(p)), id);
    s.m.insert(s.m.begin() + p, id); s.its.push_back({id, s.r.find_kth(p)});
}
static void single(int depth, int prios, int maxn, int init = 0) {
    g_range = prios; g_next = 0; Sys s; verify(s);
    if (init) { int n = 1 + mc::choose(init); for (int i = 0; i < n; i++) ins(s, i, 0); }
    for (int d = 0; d < depth; d++) {
        int n = (int)s.m.size(), o = mc::choose(6);
        switch (o) {
        case 0: case 5: { if (n >= maxn) return; ins(s, mc::choose(n + 1), o == 5); break; }
        case 1: { if (!n) return; int p = mc::choose(n); mc::trace("  erase(%d)", p); if (p & 1) s.r.erase(p); else s.r.erase(R::const_iterator(s.r.find_kth(p))); s.m.erase(s.m.begin() + p); break; }
        case 2: { if (!n) return; int b = mc::choose(n + 1), e = b + mc::choose(n + 1 - b); mc::trace("  erase(%d,%d)", b, e); if (b & 1) s.r.erase(b, e); else s.r.erase(R::const_iterator(s.r.find_kth(b)), R::const_iterator(s.r.find_kth(e))); s.m.erase(s.m.begin() + b, s.m.begin() + e); break; }
        case 3: { if (!n) return; int p = mc::choose(n); int id = g_next++; mc::trace("  r[%d] = %d", p, id); s.its.clear(); s.r[p] = id; s.m[p] = id; break; }
        case 4: { if (!n && d > 0) return; mc::trace("  clear"); s.r.clear(); s.m.clear(); s.its.clear(); break; }
        }
        mc::op(); verify(s); mc::state(mc::H().range(s.m)(d));
    }
}
static void two(int depth, int prios) {
    g_range = prios; g_next = 0; Sys a, b; ins(a, 0, 0); ins(a, 1, 0); ins(a, 1, 1);
    for (int d = 0; d < depth; d++) {
        int o = mc::choose(8); Sys& x = mc::choose(2) ? b : a; Sys& y = &x == &a ? b : a; int n = (int)x.m.size();
        switch (o) {
        case 0: ins(x, mc::choose(n + 1), 0); break;
        case 1: { if (!n) return; int p = mc::choose(n); x.r.erase(p); x.m.erase(x.m.begin() + p); break; }
        case 2: mc::trace("  x = y"); x.r = y.r; x.m = y.m; x.its.clear(); break;
        case 3: mc::trace("  swap"); x.r.swap(y.r); std::swap(x.m, y.m); std::swap(x.its, y.its); break;
        case 4: { mc::trace("  x = move(R(y))"); R t(y.r); x.r = std::move(t); x.m = y.m; x.its.clear(); break; }
        case 5: { R t(std::move(x.r)); x.r = t; x.its.clear(); break; }
        case 6: x.r.clear(); x.m.clear(); x.its.clear(); break;
        case 7: { g_range = 1; x.r = R(y.m.begin(), y.m.end()); g_range = prios; x.m = y.m; x.its.clear(); break; }
        }
        mc::op(); verify(a); verify(b); verify_cmp(a, b); verify_cmp(b, a); mc::state(mc::H().range(a.m).range(b.m)(d));
    }
}
static void eq_values() { // ropes with equal values at different positions, compared as sequences
    int n = mc::choose(4), k = mc::choose(4); std::vector<int> x, y; for (int i = 0; i < n; i++) x.push_back(mc::choose(2)); for (int i = 0; i < k; i++) y.push_back(mc::choose(2));
    g_range = 1; Sys a, b; a.m = x; b.m = y; a.r = R(x.begin(), x.end()); b.r = R(y.begin(), y.end()); verify_cmp(a, b); mc::op(); mc::state(mc::H().range(x).range(y));
    R il{1, 0, 1}; MC_CHECK(il.size() == 3 && il[0] == 1 && il[1] == 0 && il[2] == 1, "initializer list");
}
// large ropes: built in every order, erased, cut and overwritten by the listed patterns
static lg::Lcg g_lcg(1); struct LR { LR() {} LR(int (*)()) {} int operator()() { return (int)(g_lcg() >> 1); } }; typedef rope<int, LR> LRope;
static void large_same(const LRope& r, const std::vector<int>& m, const char* when) { mc::op(); MC_CHECK(r.size() == (int)m.size() && r.empty() == m.empty(), "%s: size %d, expected %d", when, r.size(), (int)m.size()); int i = 0; for (auto it = r.begin(); it != r.end(); ++it, i++) MC_CHECK(i < (int)m.size() && *it == m[i] && it.pos() == i, "%s: element %d of %d", when, i, (int)m.size()); MC_CHECK(i == (int)m.size(), "%s: %d elements visited", when, i); i = (int)m.size(); for (auto it = r.rbegin(); it != r.rend(); ++it) MC_CHECK(*it == m[--i], "%s: element %d backwards", when, i); int n = (int)m.size(), st = 1 + n / 90; for (i = 0; i < n; i += st) MC_CHECK(r[i] == m[i] && r.at(i) == m[i] && *(r.begin() + i) == m[i] && *(r.end() - (n - i)) == m[i] && r.find_kth(i) - r.begin() == i && r.begin()[i] == m[i], "%s: element %d", when, i); MC_CHECK(r.find_kth(n) == r.end() && r.end() - r.begin() == n, "%s: end", when); }
static void large() {
    static const int N[] = {20, 66, 130, 400, 1500}; int n = N[mc::choose(mc::tier(4, 5))], o = mc::choose(lg::NORDERS), eo = mc::choose(lg::NORDERS); mc::state(mc::H()(n)(o)(eo)); mc::trace("%d elements inserted in order %d and erased in order %d", n, o, eo); g_lcg = lg::Lcg(o + 5); LRope r; std::vector<int> m; std::vector<int> ins = lg::order(n, o), er = lg::order(n, eo);
    for (int i = 0; i < n; i++) { int p = ins[i] * (i + 1) / n; p = std::min(p, i); if (i % 3 == 1 && p == i) r.push_back(i); else if (i % 2) r.insert(p, i); else r.insert(r.find_kth(p), i); m.insert(m.begin() + p, i); if (i == n / 3) large_same(r, m, "a third inserted"); } large_same(r, m, "inserted"); LRope d(r); std::vector<int> dm = m; MC_CHECK(d == r && !(d != r) && !(d < r), "copy differs"); for (int i = 0; i < n; i += 5) { r[i] += 1000; m[i] += 1000; *(r.begin() + i) += 1; m[i]++; } large_same(r, m, "overwritten"); MC_CHECK(d != r && d < r && r > d && d <= r && r >= d, "order of the copy and the changed");
    for (int i = 0; i < n && m.size() > 3; i++) { int p = (int)((int64_t)er[i] * (int)m.size() / n), l = i % 7 == 6 ? std::min<int>(9, (int)m.size() - p) : 1; if (l != 1) { if (i % 2) r.erase(p, p + l); else r.erase(r.find_kth(p), r.find_kth(p + l)); } else if (i % 2) r.erase(p); else r.erase(r.begin() + p); m.erase(m.begin() + p, m.begin() + p + l); if (i % 11 == 10) { r.insert(p, -i); m.insert(m.begin() + p, -i); } if (i == n / 4 || i == n / 2) large_same(r, m, "partly erased"); } large_same(r, m, "erased"); large_same(d, dm, "copy");
    r.swap(d); large_same(r, dm, "swapped"); d = r; r.erase(n / 4, n - n / 4); large_same(d, dm, "assigned"); dm.erase(dm.begin() + n / 4, dm.begin() + (n - n / 4)); large_same(r, dm, "cut"); for (int i = 0; i < 40; i++) { r.push_back(i); dm.push_back(i); } large_same(r, dm, "extended"); LRope t(std::move(r)); large_same(t, dm, "moved"); t.clear(); large_same(t, std::vector<int>(), "cleared"); t.push_back(5); large_same(t, std::vector<int>(1, 5), "restarted"); LRope u(dm.begin(), dm.end()); large_same(u, dm, "from a range");
}
MC_SETUP(setup) {
    mc::add("large", large, 8);
    int q = mc::thorough() ? 1 : 0;
    mc::add("prebuilt_p3", [=] { single(2 + q, 3, 7, 5); }, 64);
    mc::add("prebuilt_p2", [=] { single(2 + q, 2, 9, 7); }, 64);
    mc::add("single_p3", [=] { single(4 + q, 3, 6); }, 64);
    mc::add("single_p2", [=] { single(5 + q, 2, 6); }, 64);
    mc::add("single_p1_deep", [=] { single(6 + q, 1, 5); }, 64);
    mc::add("two", [=] { two(3 + q, 2); }, 64);
    mc::add("eq_values", eq_values, 4);
}
