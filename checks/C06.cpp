// C06 lohi_map and sqrt_map against std::map.
// MC_BOUNDS: sqrt_map: every bound n in 1..2000 (quick) / 20000 (thorough) with low bound isqrt(n)..isqrt(n)+2, all admissible keys written in increasing, decreasing and interleaved order and read back through every accessor; 16 large bounds up to 2^31 - 1 (int) and 10^10 (64 bit) with every key in two orders; histories of 5 / 6 insert/[]/erase/at/reset_max/copy/swap operations over all admissible keys for n in 1..12 plus bound changes, merged on the observable contents; lohi_map: the same histories for low bounds 0..3 over keys 0..lo+2
#include "mc.h"
#include "altruct/structure/container/lohi_map.h"
#include "altruct/structure/container/sqrt_map.h"
#include <map>
#include <set>
#include <algorithm>
#include <stdexcept>
using altruct::container::lohi_map; using altruct::container::sqrt_map;
static std::vector<int> keys(int n, int q) { std::set<int> s; for (int k = 1; k <= q; k++) s.insert(k); for (int i = 1; i <= n; i++) s.insert(n / i); return std::vector<int>(s.begin(), s.end()); }
template <class F> static bool oor(F f) { try { f(); } catch (const std::out_of_range&) { return true; } return false; }
template <class I> static void sweep(int n, int q) {
    std::vector<int> ks = keys(n, q);
    for (int order = 0; order < 3; order++) {
        std::vector<int> o = ks; if (order == 1) std::reverse(o.begin(), o.end()); else if (order == 2) std::stable_partition(o.begin(), o.end(), [](int k) { return k % 2; });
        sqrt_map<I, int> m(q, n), l(q); l.reset_max(n);
        for (int k : o) { MC_CHECK(m.count(k) == 0 && l.count(k) == 0, "n=%d q=%d: key %d present before it was written", n, q, k); if (order == 1) { auto r = m.insert({(I)k, 7 * k}); MC_CHECK(r.second && r.first == k, "insert"); } else m[k] = 7 * k; l.insert({(I)k, k}); }
        const sqrt_map<I, int>& c = m;
        for (int k : ks) {
            MC_CHECK(m.count(k) == 1 && c.at(k) == 7 * k && m.at(k) == 7 * k && c[k] == 7 * k && c(k) == 7 * k && c.el(k) == 7 * k && m.el(k) == 7 * k && m[k] == 7 * k && l.at(k) == k, "n=%d q=%d: key %d holds %d, expected %d", n, q, k, c.el(k), 7 * k);
            if (k <= q) MC_CHECK(c.lo(k) == 7 * k && m.lo(k) == 7 * k, "lo(%d)", k); else MC_CHECK(c.hi(n / k) == 7 * k && m.hi(n / k) == 7 * k, "hi(%d)", n / k);
        }
        mc::op(ks.size());
    }
    mc::state(mc::hash(n, q, sizeof(I)));
}
MC_SETUP(sweeps) { // blocks of 50 bounds
    for (int b = 0; b < mc::tier(2000, 20000); b += 50) mc::add("sqrt_map_bounds_" + std::to_string(b + 1), [b] {
        int n = b + 1 + mc::choose(50), q = 1; while ((long long)(q + 1) * (q + 1) <= n) q++;
        int d = mc::choose(4); if (d == 3) q = 2 * q + 5; else q += d;
        if (mc::choose(2)) sweep<int>(n, q); else sweep<long long>(n, q);
    });
}
template <class I> static void large_bound(long long N) {
    I n = (I)N, q = 1; { long long r = (long long)__builtin_sqrt((double)N); while (r * r > N) r--; while ((r + 1) * (r + 1) <= N) r++; q = (I)r; } q += mc::choose(2); int order = mc::choose(2); mc::state(mc::H()((uint64_t)n)((uint64_t)q)(order)); mc::trace("bound %lld, low keys up to %lld", (long long)n, (long long)q); sqrt_map<I, long long> m(q, n); const sqrt_map<I, long long>& c = m; std::vector<I> ks; for (I k = 1; k <= q; k++) ks.push_back(k); for (I k = q; k >= 1; k--) if (n / k > q) ks.push_back(n / k); if (order) std::reverse(ks.begin(), ks.end());
    size_t i = 0; for (I k : ks) { MC_CHECK(c.count(k) == 0, "key %lld is present before it is written", (long long)k); if (i % 3 == 0) m.insert({k, (long long)k * 3 + 1}); else m[k] = (long long)k * 3 + 1; i++; } mc::op(ks.size()); sqrt_map<I, long long> d(1); d = m; for (I k : ks) MC_CHECK(m.count(k) == 1 && c.at(k) == (long long)k * 3 + 1 && d[k] == (long long)k * 3 + 1 && c.el(k) == (long long)k * 3 + 1, "key %lld holds %lld, expected %lld", (long long)k, (long long)c.el(k), (long long)k * 3 + 1);
    i = 0; for (I k : ks) if (++i % 5 == 2) m.erase(k); i = 0; for (I k : ks) MC_CHECK(m.count(k) == (++i % 5 != 2) && d.count(k) == 1, "key %lld after erasing some", (long long)k); }
MC_SETUP(large_bounds) { for (long long n : {12345LL, 999999LL, 1000000LL, 1000001LL, 46340LL * 46340, 46340LL * 46341, 2147483647LL}) mc::add("large_bound_int_" + std::to_string(n), [n] { large_bound<int>(n); }, 1); for (long long n : {999999LL, 1LL << 31, (1LL << 32) - 1, 1LL << 32, 65537LL * 65537 - 1, 65537LL * 65537, 99999LL * 99999, 10000000000LL, 10000000019LL}) mc::add("large_bound_long_" + std::to_string(n), [n] { large_bound<long long>(n); }, 1); }
struct model { std::map<int, int> m; int n; };
static void verify(sqrt_map<int, int>& a, const std::map<int, int>& m, int n, int q, const char* w) {
    const sqrt_map<int, int>& c = a;
    for (int k : keys(n, q)) {
        auto it = m.find(k);
        MC_CHECK(c.count(k) == (it != m.end()), "%s: count(%d)=%d", w, k, c.count(k));
        if (it == m.end()) MC_CHECK(oor([&] { c.at(k); }) && oor([&] { a.at(k); }), "%s: at(%d) did not throw", w, k);
        else MC_CHECK(c.at(k) == it->second && a.at(k) == it->second && c[k] == it->second && c(k) == it->second && a.el(k) == it->second, "%s: key %d holds %d, expected %d", w, k, c[k], it->second);
    }
    MC_CHECK(oor([&] { c.at(-1); }) && oor([&] { c.at(n + 1 > q ? std::max(n, q) + 1 : q + 1); }), "%s: at() outside of the domain did not throw", w);
    sqrt_map<int, int> d(a); for (int k : keys(n, q)) { auto it = m.find(k); int e = it == m.end() ? 0 : it->second; MC_CHECK(d[k] == e, "%s: [] of key %d is %d, expected %d", w, k, d[k], e); MC_CHECK(d.count(k) == 1, "[] creates"); } // absent keys get the default value
}
static void sqrt_history(int n0) {
    int q = 1; while ((q + 1) * (q + 1) <= n0) q++; q += mc::choose(2);
    sqrt_map<int, int> a(q, n0), b(q, std::max(1, n0 - 1)); std::map<int, int> ma, mb; int na = n0, nb = std::max(1, n0 - 1), qa = q;
    int depth = mc::tier(4, 5), ver = 0;
    for (int i = 0;; i++) {
        if (mc::fresh()) { verify(a, ma, na, qa, "first"); verify(b, mb, nb, qa, "second"); }
        mc::H k; k(depth - i)(qa)(na)(nb); for (auto& e : ma) k(e.first)(e.second); k(99); for (auto& e : mb) k(e.first)(e.second);
        // hidden slot contents are part of the state
        { const sqrt_map<int, int>& c = a; for (int x : keys(na, qa)) k(c.el(x)); } k(ver);
        mc::state(k); if (i == depth || mc::seen(k)) return;
        int o = mc::choose(9); std::vector<int> ks = keys(na, qa); mc::op();
        if (o < 5) {
            int key = ks[mc::choose((int)ks.size())], v = 10 + i; mc::trace("op %d key %d", o, key);
            switch (o) {
            case 0: { auto r = a.insert({key, v}); bool f = ma.insert({key, v}).second; MC_CHECK(r.second == f && r.first == key, "insert(%d) returned %d", key, r.second); break; }
            case 1: a[key] = v; ma[key] = v; break;
            case 2: { int r = a.erase(key), e = (int)ma.erase(key); MC_CHECK(r == e, "erase(%d) returned %d", key, r); break; }
            case 3: a[key] += i & 1; ma[key] += i & 1; break; // += 0 creates an element holding the default value
            case 4: if (ma.count(key)) { a.at(key) = v; ma[key] = v; } else return; break;
            }
        } else if (o == 5) { a = b; ma = mb; na = nb; }
        else if (o == 6) { a.swap(b); ma.swap(mb); std::swap(na, nb); }
        else if (o == 7) { int nn = mc::choose(2) ? std::max(1, na / 2) : std::min(qa * (qa + 2), na + 1); mc::trace("reset_max %d", nn); a.reset_max(nn); na = nn; for (auto it = ma.begin(); it != ma.end();) if (it->first > qa) it = ma.erase(it); else ++it; }
        else { sqrt_map<int, int> t(a); t[1] = 77; b = t; mb = ma; mb[1] = 77; nb = na; }
    }
}
static void lohi_history(int lo) {
    lohi_map<int, int> a(lo), b(lo); std::map<int, int> ma, mb; int depth = mc::tier(5, 6), K = lo + 3;
    auto ver = [&](lohi_map<int, int>& x, const std::map<int, int>& m, const char* w, bool thr) {
        const lohi_map<int, int>& c = x; lohi_map<int, int> d(x);
        for (int k = 0; k < K; k++) {
            auto it = m.find(k); MC_CHECK(c.count(k) == (it != m.end()), "%s: count(%d)", w, k);
            if (it == m.end()) { if (thr) MC_CHECK(oor([&] { c.at(k); }) && oor([&] { x.at(k); }), "%s: at(%d) did not throw", w, k); }
            else MC_CHECK(c.at(k) == it->second && x.at(k) == it->second, "%s: key %d holds %d, expected %d", w, k, c.at(k), it->second);
            int e = it == m.end() ? 0 : it->second; MC_CHECK(d[k] == e && d.count(k) == 1, "%s: [] of key %d, expected %d", w, k, e);
        }
    };
    for (int i = 0;; i++) {
        if (mc::fresh()) { ver(a, ma, "first", i < depth); ver(b, mb, "second", i < depth - 1); }
        mc::H k; k(depth - i)(lo); for (auto& e : ma) k(e.first)(e.second); k(99); for (auto& e : mb) k(e.first)(e.second);
        mc::state(k); if (i == depth || mc::seen(k)) return; // everything observable was just compared with the model
        int o = mc::choose(8), key = o < 4 || o == 7 ? mc::choose(K) : 0, v = 10 + i; mc::trace("op %d key %d", o, key); mc::op();
        switch (o) {
        case 0: { auto r = a.insert({key, v}); bool f = ma.insert({key, v}).second; MC_CHECK(r.second == f && r.first == key, "insert(%d)", key); break; }
        case 1: a[key] += v; ma[key] += v; break;
        case 2: { int r = a.erase(key), e = (int)ma.erase(key); MC_CHECK(r == e, "erase(%d) returned %d", key, r); break; }
        case 3: if (!ma.count(key)) return; a.at(key) = v; ma[key] = v; break;
        case 4: a = b; ma = mb; break;
        case 5: b = a; mb = ma; break;
        case 6: std::swap(a, b); ma.swap(mb); break;
        case 7: a[key]; ma[key]; break; // an element holding the default value
        }
    }
}
MC_SETUP(histories) {
    for (int n = 1; n <= 12; n++) mc::add("sqrt_map_history_" + std::to_string(n), [n] { sqrt_history(n); }, 9);
    for (int l = 0; l <= 3; l++) mc::add("lohi_map_history_" + std::to_string(l), [l] { lohi_history(l); }, 7);
}
