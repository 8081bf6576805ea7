// C43 permutations: every permutation up to a size with every notation, power, root and pair of operands against plain mappings.
// MC_BOUNDS: listed permutations of 10..300 elements (11 cycle structures); every permutation of up to 6 elements (thorough 7; 4 for narrower and unsigned index types) from its line, its cycles in every rotation and reversed order and its transpositions; powers -9..13 and extreme 64-bit exponents; roots of degree 1..13 with every parity request against all permutations; applied to lines of every length up to n + 2; every ordered pair of permutations of sizes 0..5 (thorough 0..6 with 0..5) with product, quotient and comparison; every triple of permutations of up to 4 elements for the order; every sequence of up to 3 (4) transpositions of up to 5 elements
// MC_ASSUME: cycles are disjoint and non-empty; roots of positive degree; lines are long enough for the elements moved
#include "mc.h"
#include "large.h"
#include <stdint.h>
#include <limits.h>
#include <string>
#include <algorithm>
#include <map>
#include <vector>
#include "altruct/structure/math/permutation.h"
namespace am = altruct::math; typedef long long ll; typedef std::vector<int> V;
#define S(v) mc::show(v).c_str()
static V ident(int n) { V v(n); for (int i = 0; i < n; i++) v[i] = i; return v; }
static V comp(const V& outer, const V& inner) { V r(inner.size()); for (size_t i = 0; i < r.size(); i++) r[i] = outer[inner[i]]; return r; } // r(x) = outer(inner(x))
static V ext(V v, int n) { while ((int)v.size() < n) v.push_back((int)v.size()); return v; }
static V invm(const V& v) { V r(v.size()); for (size_t i = 0; i < v.size(); i++) r[v[i]] = (int)i; return r; }
static int ncyc(const V& v) { int c = 0; std::vector<bool> u(v.size()); for (size_t i = 0; i < v.size(); i++) if (!u[i]) { c++; for (int j = (int)i; !u[j]; j = v[j]) u[j] = true; } return c; }
static V powm(const V& v, ll k) { V r(v.size()); for (size_t i = 0; i < v.size(); i++) { std::vector<int> c; int j = (int)i; do c.push_back(j), j = v[j]; while (j != (int)i); ll L = (ll)c.size(); r[i] = c[(k % L + L) % L]; } return r; }
template<class I> struct P {
    typedef am::permutation<I> T; typedef typename T::line_t L; typedef typename T::cycles_t C; typedef typename T::cycle_t C1; typedef typename T::transpositions_t X;
    static L ln(const V& v) { return L(v.begin(), v.end()); } static V vec(const L& l) { return V(l.begin(), l.end()); } static V line(const T& p) { return vec(p.to_line()); }
    static void map_of(const T& p, const V& w, const char* what, const V& a) { V g = line(p); MC_CHECK(g == w && (int)p.n == (int)w.size(), "%s of %s is %s of size %d, expected %s", what, S(a), S(g), (int)p.n, S(w)); }
    // the cycles describe exactly the mapping, each element at most once; `all` includes the fixed points
    static void cyc(const C& cs, const V& m, int ones, const char* what) { std::vector<int> u(m.size()); for (auto& c : cs) { MC_CHECK(!c.empty(), "%s of %s has an empty cycle", what, S(m)); MC_CHECK(ones != 0 || c.size() > 1, "%s of %s has a cycle of one element", what, S(m)); for (size_t i = 0; i < c.size(); i++) { int x = (int)c[i], y = (int)c[(i + 1) % c.size()]; MC_CHECK(x >= 0 && x < (int)m.size() && !u[x]++, "%s of %s: element %d", what, S(m), x); MC_CHECK(m[x] == y, "%s of %s: %d is followed by %d", what, S(m), x, y); } } for (size_t i = 0; i < m.size(); i++) MC_CHECK(u[i] || (ones != 1 && m[i] == (int)i), "%s of %s misses %d", what, S(m), (int)i); }
    static V swaps(V v, const X& t) { for (auto& p : t) std::swap(v[p.first], v[p.second]); return v; }
    struct Roots { bool any, even, odd; int best; };
    static const Roots& roots(const V& m, int T_) { static std::map<std::pair<int, int>, std::map<V, Roots>> all; auto& t = all[{(int)m.size(), T_}]; if (t.empty()) { V q = ident((int)m.size()); do { V w = powm(q, T_); int tr = (int)q.size() - ncyc(q); auto it = t.find(w); if (it == t.end()) it = t.insert({w, Roots{true, false, false, 1000}}).first; (tr % 2 ? it->second.odd : it->second.even) = true; it->second.best = std::min(it->second.best, tr); } while (std::next_permutation(q.begin(), q.end())); } static Roots none{false, false, false, 1000}; auto it = t.find(m); return it == t.end() ? none : it->second; }
    static void single(int maxn) {
        int n = mc::choose(maxn + 1); V m, rest = ident(n); for (int i = 0; i < n; i++) { int k = mc::choose((int)rest.size()); m.push_back(rest[k]); rest.erase(rest.begin() + k); } mc::state(mc::H()(n)(sizeof(I)).range(m)); mc::op(); mc::trace("permutation %s", S(m)); T p(ln(m)); const T& cp = p; int nc = ncyc(m);
        map_of(cp, m, "line", m); cyc(cp.to_cycles(), m, 0, "to_cycles"); cyc(cp.cycles, m, 0, "cycles"); cyc(cp.to_all_cycles(), m, 1, "to_all_cycles"); MC_CHECK((int)cp.to_all_cycles().size() == nc, "to_all_cycles of %s", S(m)); X tr = cp.to_transpositions(); MC_CHECK((int)tr.size() == n - nc, "to_transpositions of %s has %d", S(m), (int)tr.size()); map_of(T(tr, (I)n), m, "from transpositions", m); MC_CHECK(swaps(ident(n), tr) == m, "transpositions of %s", S(m)); MC_CHECK(T(tr, (I)n) == p, "permutation from its transpositions differs from %s", S(m));
        MC_CHECK(vec(T::cycles_to_line(cp.cycles, (I)n)) == m, "cycles_to_line"); cyc(T::line_to_cycles(ln(m)), m, 0, "line_to_cycles"); cyc(T::all_cycles(cp.cycles, (I)n), m, 1, "all_cycles"); MC_CHECK(swaps(ident(n), T::line_to_transpositions(ln(m))) == m, "line_to_transpositions of %s", S(m)); MC_CHECK(swaps(ident(n), T::cycles_to_transpositions(cp.cycles)) == m, "cycles_to_transpositions of %s", S(m)); MC_CHECK(vec(T::transpositions_to_line(tr, (I)n)) == m, "transpositions_to_line of %s", S(m)); int sz = 0; for (int i = 0; i < n; i++) if (m[i] != i) sz = i + 1; MC_CHECK((int)T::size(cp.cycles) == sz && (int)T::size(tr) == sz, "size of %s", S(m)); { V w = m; w.resize(sz); cyc(T::transpositions_to_cycles(tr), w, 0, "transpositions_to_cycles"); } MC_CHECK(vec(T::identity_line((I)n)) == ident(n), "identity_line"); MC_CHECK(line(am::identityOf(p)) == ident(n) && line(T((I)n)) == ident(n) && T((I)n) == am::identityOf(p), "identity");
        // the same permutation written differently
        int rot = 1; for (auto& c : cp.cycles) rot = std::max(rot, (int)c.size()); for (int r = 0; r < rot; r++) for (int rev = 0; rev < 4; rev++) { C cs = rev & 2 ? cp.to_all_cycles() : cp.cycles; for (auto& c : cs) std::rotate(c.begin(), c.begin() + r % c.size(), c.end()); if (rev & 1) std::reverse(cs.begin(), cs.end()); { int z = 0; for (auto& c : cs) for (auto x : c) z = std::max(z, (int)x + 1); MC_CHECK((int)T::size(cs) == z, "size of rewritten cycles of %s is %d", S(m), (int)T::size(cs)); } T q(cs, (I)n); map_of(q, m, "from cycles", m); MC_CHECK(q == p && p == q && !(q != p) && !(q < p) && !(p < q) && q <= p && q >= p && !(q > p), "%s written differently is not equal to itself", S(m)); cyc(q.to_all_cycles(), m, 1, "to_all_cycles of rewritten"); V iw = invm(m); map_of(q.inv(), iw, "inverse", m); map_of(q.pow(2), powm(m, 2), "square", m); map_of(q.pow(-2), powm(m, -2), "power -2", m); MC_CHECK((int)q.to_transpositions().size() == n - nc, "transpositions of rewritten"); map_of(q * p, powm(m, 2), "product of rewritten", m); map_of(q / p, ident(n), "quotient of rewritten", m); auto qr = q.root(1); map_of(qr, m, "root 1 of rewritten", m); }
        map_of(cp.inv(), invm(m), "inverse", m); MC_CHECK(cp.inv() * cp == T((I)n) && cp * cp.inv() == T((I)n) && cp.inv().inv() == cp, "inverse of %s", S(m)); { T q = p; q *= q; map_of(q, powm(m, 2), "*= itself", m); q = p; q /= q; map_of(q, ident(n), "/= itself", m); }
        V a = ident(n); for (int e = 0; e <= 13; e++, a = comp(m, a)) { map_of(cp.pow(e), a, "power", m); map_of(cp.pow(-e), invm(a), "negative power", m); map_of(am::powT(cp, e), a, "powT", m); MC_CHECK(cp.pow(e) * cp == cp.pow(e + 1), "power %d of %s times itself", e, S(m)); }
        for (ll e : {(ll)INT_MAX, (ll)INT_MIN, (ll)UINT_MAX, LLONG_MAX, LLONG_MAX - 1, LLONG_MIN, LLONG_MIN + 1, 1000000007ll, -1000000007ll}) map_of(cp.pow(e), powm(m, e), "large power", m);
        for (int e = 1; e <= 13; e++) { const Roots& r = roots(m, e); for (int par = -1; par < 2; par++) { bool ex = par < 0 ? r.any : par ? r.odd : r.even; T q = cp.root(e, par); if (n == 0) { MC_CHECK(q.n == 0, "root of the empty permutation"); continue; } if (!ex) { MC_CHECK(q.n == 0 && q.cycles.empty(), "root %d with parity %d of %s does not exist, but is %s", e, par, S(m), S(line(q))); continue; } V g = line(q); MC_CHECK((int)g.size() == n && powm(g, e) == m, "root %d with parity %d of %s is %s", e, par, S(m), S(g)); cyc(q.cycles, g, -1, "root"); int t = n - ncyc(g); if (par >= 0) MC_CHECK(t % 2 == par && (int)q.to_transpositions().size() % 2 == par, "root %d of %s with parity %d is %s", e, S(m), par, S(g)); else MC_CHECK(t == r.best, "root %d of %s takes %d transpositions, %d are enough", e, S(m), t, r.best); MC_CHECK(q.pow(e) == p, "power of the root"); } }
        // application: position i takes the element from position m[i]
        for (int len = 0; len <= n + 2; len++) { if (len < sz) continue; L l; for (int i = 0; i < len; i++) l.push_back((I)(20 + i)); L w; for (int i = 0; i < std::max(len, n); i++) { int j = i < n ? m[i] : i; w.push_back((I)(j < len ? 20 + j : j)); } L c = l; L& ret = cp.apply_to(c); MC_CHECK(&ret == &c, "apply_to returns another line"); MC_CHECK(c == w, "%s applied to a line of %d is %s", S(m), len, S(c)); c = l; T::apply_cycles_to_line(c, cp.cycles, (I)n); MC_CHECK(c == w, "apply_cycles_to_line"); c = l; T::apply_cycles_to_line(c, cp.cycles); w.resize(len); MC_CHECK(c == w, "apply_cycles_to_line without expansion"); c = l; T::apply_transpositions_to_line(c, tr); MC_CHECK(c == w, "apply_transpositions_to_line"); c = l; T::expand_line(c, (I)n); MC_CHECK((int)c.size() == std::max(len, n), "expand_line"); for (int i = 0; i < (int)c.size(); i++) MC_CHECK((int)c[i] == (i < len ? 20 + i : i), "expand_line"); }
    }
};
template<class I> static void large_t() {
    typedef P<I> K; typedef typename K::T T; static const int N[] = {10, 60, 127, 128, 300}; int n = N[mc::choose(sizeof(I) == 1 ? 4 : 5)], kind = mc::choose(11), seed = mc::choose(4); mc::state(mc::H()(n)(kind)(seed)(sizeof(I))); mc::trace("permutation of %d elements, kind %d, member %d", n, kind, seed); lg::Lcg g(n + kind * 5 + seed);
    V q = lg::order(n, (kind + seed) % lg::NORDERS), m(n); if (kind < 7) { V name = q; int i = 0; while (i < n) { int len = kind == 0 ? n : kind == 1 ? 2 : kind == 2 ? 3 + seed : kind == 3 ? 1 + i % 7 : kind == 4 ? 1 << g.below(5) : kind == 5 ? (g.below(2) ? 6 : 12) : 1 + g.below(9); len = std::min(len, n - i); for (int j = 0; j < len; j++) m[name[i + j]] = name[i + (j + 1) % len]; i += len; } } else if (kind == 7) m = q; else if (kind == 8) { m = ident(n); std::swap(m[g.below(n)], m[n - 1]); } else if (kind == 9) for (int i = 0; i < n; i++) m[i] = (i + 7 + seed) % n; else m = lg::order(n, 5 + seed % 2);
    T p(K::ln(m)); const T& cp = p; int nc = ncyc(m); mc::op(); K::map_of(cp, m, "line", m); K::cyc(cp.to_cycles(), m, 0, "to_cycles"); K::cyc(cp.to_all_cycles(), m, 1, "to_all_cycles"); auto tr = cp.to_transpositions(); MC_CHECK((int)tr.size() == n - nc && K::swaps(ident(n), tr) == m, "to_transpositions"); MC_CHECK(T(tr, (I)n) == p, "from transpositions"); { auto cs = cp.to_all_cycles(); for (auto& c : cs) std::rotate(c.begin(), c.begin() + c.size() / 2, c.end()); std::reverse(cs.begin(), cs.end()); T r(cs, (I)n); MC_CHECK(r == p && !(r < p) && !(p < r), "from rewritten cycles"); }
    K::map_of(cp.inv(), invm(m), "inverse", m); for (ll e : {0ll, 1ll, -1ll, 2ll, 3ll, 5ll, 12ll, 60ll, -7ll, 100ll, 5040ll, 1000000007ll, LLONG_MAX, LLONG_MIN}) K::map_of(cp.pow(e), powm(m, e), "power", m); T q2(K::ln(q)); MC_CHECK(K::line(p * q2) == comp(q, m), "product"); MC_CHECK((p * q2) / q2 == p && (p / q2) * q2 == p, "quotient"); MC_CHECK(p * p.inv() == T((I)n), "product with the inverse");
    V cnt(n + 1); { V u(n); for (int i = 0; i < n; i++) if (!u[i]) { int l = 0; for (int j = i; !u[j]; j = m[j]) u[j] = 1, l++; cnt[l]++; } } for (int e : {1, 2, 3, 4, 5, 6, 8, 9, 12, 30}) { bool any = true; for (int L = 1; L <= n; L++) if (cnt[L]) { int w = 1, r = e; for (int f = 2; f <= r; f++) while (r % f == 0) { if (L % f == 0) w *= f; r /= f; } if (cnt[L] % w) any = false; } /* cycles of one length L merge in groups of a multiple of the part of e made of primes of L */
        T r = cp.root(e, -1); MC_CHECK((r.n != 0) == any, "root %d: %s", e, any ? "not found" : "found, but there is none"); if (any) { V y = K::line(r); MC_CHECK((int)y.size() == n && powm(y, e) == m, "root %d raised to its degree", e); } for (int par = 0; par < 2; par++) { T o = cp.root(e, par); if (o.n != 0) { V y = K::line(o); MC_CHECK(any && powm(y, e) == m && (n - ncyc(y)) % 2 == par, "root %d with parity %d", e, par); } else if (any) { V y = K::line(r); MC_CHECK((n - ncyc(y)) % 2 != par, "root %d with parity %d not found", e, par); } } }
    typename K::L l; for (int i = 0; i < n + 5; i++) l.push_back((I)(i % 100)); auto w = l; for (int i = 0; i < n; i++) w[i] = l[m[i]]; cp.apply_to(l); MC_CHECK(l == w, "applied to a line"); }
static void large() { switch (mc::choose(4)) { case 0: large_t<int>(); break; case 1: large_t<int64_t>(); break; case 2: large_t<uint32_t>(); break; default: large_t<uint8_t>(); } }
MC_SETUP(large_setup) { mc::add("large", large, 8); }
static void single_int() { P<int>::single(mc::tier(6, 7)); } static void single_i64() { P<int64_t>::single(4); } static void single_u32() { P<uint32_t>::single(4); } static void single_u8() { P<uint8_t>::single(4); }
static std::vector<V> perms(int n) { std::vector<V> r; V q = ident(n); do r.push_back(q); while (std::next_permutation(q.begin(), q.end())); return r; }
static void pairs() {
    typedef P<int> K; typedef K::T T; int n = mc::choose(mc::tier(5, 6) + 1); static std::map<int, std::vector<V>> all; for (int i = 0; i <= 6; i++) if (!all.count(i)) all[i] = perms(i); const V& m = all[n][mc::choose((int)all[n].size())]; mc::state(mc::H()(n).range(m)); mc::trace("%s with every partner", S(m)); T p(m);
    for (int k = 0; k <= 5; k++) for (const V& o : all[k]) { mc::op(); T q(o); int N = std::max(n, k); V a = ext(m, N), b = ext(o, N); T r = p * q; auto prod = comp(b, a); /* the right factor is applied to a line first */ MC_CHECK(K::line(r) == prod && r.n == N, "%s * %s is %s, expected %s", S(m), S(o), S(K::line(r)), S(prod)); T t = p; t *= q; MC_CHECK(t == r, "*= differs from *"); V l(N), l2; for (int i = 0; i < N; i++) l[i] = 30 + i; l2 = l; q.apply_to(l); p.apply_to(l); r.apply_to(l2); MC_CHECK(l == l2, "%s * %s applied to a line", S(m), S(o)); T d = p / q; MC_CHECK(K::line(d) == comp(invm(b), a), "%s / %s is %s", S(m), S(o), S(K::line(d))); t = p; t /= q; MC_CHECK(t == d, "/= differs from /"); MC_CHECK(K::line(r / q) == a, "(%s * %s) / %s", S(m), S(o), S(o));
        bool eq = n == k && m == o; MC_CHECK((p == q) == eq && (p != q) == !eq, "equality of %s and %s", S(m), S(o)); int lt = p < q, gt = p > q; MC_CHECK(lt + gt + eq == 1 && (p <= q) == !gt && (p >= q) == !lt && (q < p) == gt && (n == k || lt == (n < k)), "order of %s and %s", S(m), S(o)); }
}
static void order() { typedef P<int>::T T; static const std::vector<V> all = [] { std::vector<V> r; for (int n = 0; n <= 4; n++) for (auto& v : perms(n)) r.push_back(v); return r; }(); int i = mc::choose((int)all.size()), j = mc::choose((int)all.size()); mc::state(mc::hash(i, j)); T a(all[i]), b(all[j]); for (auto& v : all) { mc::op(); T c(v); MC_CHECK(!(a < b && b < c) || a < c, "order of %s, %s and %s", S(all[i]), S(all[j]), S(v)); T x = a * b, y = b * c; if (all[i].size() == v.size() && all[j].size() == v.size()) MC_CHECK(x * c == a * y, "associativity"); } }
static void transpositions() { typedef P<int> K; int n = 1 + mc::choose(5), k = mc::choose(mc::tier(3, 4) + 1); K::X t; V w = ident(n); for (int i = 0; i < k; i++) { int a = mc::choose(n), b = mc::choose(n); t.push_back({a, b}); std::swap(w[a], w[b]); } mc::H h; h(n)(k); for (auto& p : t) h(p.first)(p.second); mc::state(h); mc::op(); K::T p(t, n); K::map_of(p, w, "product of transpositions", w); MC_CHECK(p == K::T(w), "permutation from transpositions differs from %s", S(w)); int sz = 0; for (auto& x : t) sz = std::max(sz, std::max(x.first, x.second) + 1); MC_CHECK(K::T::size(t) == sz, "size of transpositions is %d", K::T::size(t)); V v = w; v.resize(sz); K::cyc(K::T::transpositions_to_cycles(t), v, 0, "transpositions_to_cycles"); V l = ident(n); for (auto& x : l) x += 40; V c = l; K::T::apply_transpositions_to_line(c, t); for (int i = 0; i < n; i++) MC_CHECK(c[i] == l[w[i]], "transpositions applied to a line"); MC_CHECK(((int)p.to_transpositions().size() - k) % 2 == 0 || [&] { int d = 0; for (auto& x : t) d += x.first != x.second; return (int)p.to_transpositions().size() % 2 == d % 2; }(), "parity of %s", S(w)); }
MC_SETUP(setup) { mc::add("single_int", single_int, 8); mc::add("single_i64", single_i64); mc::add("single_u32", single_u32); mc::add("single_u8", single_u8); mc::add("pairs", pairs, 4); mc::add("order", order, 2); mc::add("transpositions", transpositions, 4); }
