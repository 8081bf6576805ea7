// C17 polynomial hashes: one canonical value per content however it was produced; hashers of pairs, tuples and edges.
// MC_BOUNDS: listed strings of 50..2000 elements with 40 substrings each; every string of up to 5 (thorough 6) elements over {0, 1, -5, M-1} and {97, -128, 255}, as a substring of every context of up to 3 elements on both sides, produced by adding elements in every order (up to 4), by cumulative hashes (constructor, assign over old contents, push_back/pop_back), by concatenation (<<, +, add) and by difference (-, >>, sub_shr), for one base with moduli 2, 97, 101, 758986603 and 1000000007 and for 1, 2 and 3 bases (32 and 64 bit); power tables requested in six orders of 4 sizes, and first used and grown through every pair of 8 operations (one base) / 24 pairs (4 to 27 bases); all pairs/tuples/edges over small components in hash containers
// MC_DESIGN: the oracle evaluates sum c_i B^i with 128-bit residues; element contributions outside [0,M) are reduced as residues
#include "mc.h"
#include "large.h"
#include "altruct/algorithm/hash/polynomial_hash.h"
#include "altruct/algorithm/hash/std_tuple_hash.h"
#include "altruct/structure/graph/graph.h"
#include <algorithm>
#include <list>
#include <numeric>
#include <set>
#include <unordered_map>
#include <unordered_set>
using namespace altruct::hash; typedef long long ll; typedef std::vector<int> V;
typedef polynomial_hash1<758986603, 36759071, 366621061> A0; typedef polynomial_hash1<101, 3, 34> A1; typedef polynomial_hash1<2, 1, 1> A2; typedef polynomial_hash1<1000000007, 32547971, 624567078> A3; typedef polynomial_hash1<97, 5, 39> A4;
typedef polynomial_hash<1> K1; template<> int32_t K1::M[1] = {758986603}; template<> int32_t K1::B[1] = {36759071}; template<> int32_t K1::BI[1] = {366621061};
typedef polynomial_hash<2> K2; template<> int32_t K2::M[2] = {758986603, 1000000007}; template<> int32_t K2::B[2] = {36759071, 32547971}; template<> int32_t K2::BI[2] = {366621061, 624567078};
typedef polynomial_hash<3, int32_t, int64_t> K3; template<> int32_t K3::M[3] = {101, 97, 13}; template<> int32_t K3::B[3] = {3, 5, 7}; template<> int32_t K3::BI[3] = {34, 39, 2};
typedef polynomial_hash<2, int64_t, __int128> L2; template<> int64_t L2::M[2] = {1000000000039LL, 1000003}; template<> int64_t L2::B[2] = {3, 2}; template<> int64_t L2::BI[2] = {666666666693LL, 500002};
template <class T> struct info; // moduli and bases
template <int M, int B, int BI> struct info<polynomial_hash1<M, B, BI>> { typedef polynomial_hash1<M, B, BI> T; static std::vector<std::pair<ll, ll>> mb() { return {{M, B}}; } static std::vector<ll> get(const T& t) { return {t.h}; } };
template <size_t K, class I, class IT> struct info<polynomial_hash<K, I, IT>> { typedef polynomial_hash<K, I, IT> T; static std::vector<std::pair<ll, ll>> mb() { std::vector<std::pair<ll, ll>> r; for (size_t k = 0; k < K; k++) r.push_back({T::M[k], T::B[k]}); return r; } static std::vector<ll> get(const T& t) { return std::vector<ll>(t.h.begin(), t.h.end()); } };
template <class T> static std::vector<ll> val(const V& s, int shift = 0) { std::vector<ll> r; for (auto& q : info<T>::mb()) { __int128 x = 0, w = 1; for (int i = 0; i < shift; i++) w = w * q.second % q.first; for (int c : s) { x = (x + c * w) % q.first; if (x < 0) x += q.first; w = w * q.second % q.first; } r.push_back((ll)x); } return r; }
template <class T> static void eq(const T& t, const std::vector<ll>& e, const char* how, const V& s) { auto g = info<T>::get(t); MC_CHECK(g == e, "hash of %s by %s is %s expected %s", mc::show(s).c_str(), how, mc::show(g).c_str(), mc::show(e).c_str()); MC_CHECK((ll)t.hash() == e[0], "hash() of %s", mc::show(s).c_str()); }
template <class T> static T direct(const V& s) { T h; for (size_t i = 0; i < s.size(); i++) h.add(s[i], i); return h; }
static V cat(V a, const V& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
template <class T> static void content(const V& p, const V& s, const V& q) {
    mc::op(); auto e = val<T>(s); T h = direct<T>(s); eq(h, e, "adding in order", s);
    { T r; for (size_t i = s.size(); i-- > 0;) r.add(s[i], i); eq(r, e, "adding backwards", s); MC_CHECK(r == h && !(r < h) && !(h < r), "comparison"); }
    V all = cat(cat(p, s), q); cumulative_hash<T> c(all.begin(), all.end()); size_t b = p.size(), n = b + s.size(); MC_CHECK(c.size() == all.size(), "cumulative size"); eq(c.get(b, n), e, "cumulative substring", s);
    cumulative_hash<T> d; d.assign(q.begin(), q.end()); for (int x : p) d.push_back(x); eq(d.get(q.size(), q.size() + p.size()), val<T>(p), "cumulative push_back", p); d.assign(all.begin(), all.end()); MC_CHECK(d.size() == all.size(), "size after assigning %d elements over %d is %d", (int)all.size(), (int)(q.size() + p.size()), (int)d.size()); eq(d.get(b, n), e, "re-assigned cumulative substring", s);
    std::list<int> li(s.begin(), s.end()); d.assign(li.begin(), li.end()); MC_CHECK(d.size() == s.size(), "size after assigning"); eq(d.get(0, s.size()), e, "cumulative re-assigned to the string", s);
    for (size_t i = 0; i < s.size(); i++) d.pop_back(); for (int x : all) d.push_back(x); eq(d.get(b, n), e, "cumulative pop_back and push_back", s); eq(d.get(n, n), val<T>({}), "empty substring", s);
    T hp = direct<T>(p), hq = direct<T>(q), hps = direct<T>(cat(p, s)), hsq = direct<T>(cat(s, q)); int P = (int)p.size(), N = (int)s.size();
    eq(hp + (h << P), val<T>(cat(p, s)), "concatenation", cat(p, s)); { T t = hp; t.add(h, P); eq(t, val<T>(cat(p, s)), "add of a hash", cat(p, s)); } { T t = h; t <<= P; eq(t, val<T>(s, P), "shift", s); t >>= P; eq(t, e, "shift back", s); t += hp; t -= hp; eq(t, e, "sum and difference", s); }
    eq((hps - hp) >> P, e, "difference", s); { T t = hps; t.sub_shr(hp, P); eq(t, e, "sub_shr", s); } eq(hsq - (hq << N), e, "difference of the tail", s); { T t = hps; eq(t.clone(), val<T>(cat(p, s)), "clone", s); }
    MC_CHECK(((h == hp) == (val<T>(s) == val<T>(p))) && ((h < hp) == (val<T>(s) < val<T>(p))), "comparison of different contents");
    { auto x = val<T>(s), y = val<T>(p), mb = x; int i = 0; for (auto& m : info<T>::mb()) { mb[i] = (ll)((__int128)x[i] * y[i] % m.first); i++; } eq(h * hp, mb, "product", s); T t = h; t *= hp; eq(t, mb, "product", s); }
}
template <size_t K, class I, class IT> static void scalar(const V& s, polynomial_hash<K, I, IT>*) { // K-base operations with plain numbers
    typedef polynomial_hash<K, I, IT> T; T h = direct<T>(s); auto x = val<T>(s); int n = (int)s.size();
    for (int c : {0, 1, 5, 90, -3, -128}) { auto a = x, b = x, m = x, d = x; int i = 0; for (auto& q : info<T>::mb()) { auto md = [&](__int128 v) { v %= q.first; return (ll)(v < 0 ? v + q.first : v); }; a[i] = md((__int128)x[i] + c); b[i] = md((__int128)x[i] - c); m[i] = md((__int128)x[i] * c); __int128 inv = 1; if (q.first < 1000) for (ll t = 1; t < 1000; t++) if (t * q.second % q.first == 1) { inv = t; break; } d[i] = -1; if (q.first < 1000) { __int128 v = md((__int128)x[i] - c); for (int k = 0; k < n; k++) v = md(v * inv); d[i] = (ll)v; } i++; }
        eq(h + (I)c, a, "adding a number", s); eq(h - (I)c, b, "subtracting a number", s); eq(h * (I)c, m, "multiplying by a number", s); T t = h; t.sub_shr((I)c, n); auto g = info<T>::get(t); for (size_t k = 0; k < K; k++) if (d[k] >= 0) MC_CHECK(g[k] == d[k], "sub_shr of a number"); }
}
static V str(const std::vector<int>& al, int maxlen) { V s; int n = mc::choose(maxlen + 1); for (int i = 0; i < n; i++) s.push_back(al[mc::choose((int)al.size())]); return s; }
static void small() { bool k = mc::choose(2); std::vector<int> al = k ? std::vector<int>{97, -128, 255} : std::vector<int>{0, 1, -5, 758986602}; V s = str(al, mc::tier(3, 4)), p = str(al, 2), q = str({al[1], al[2]}, 1); mc::state(mc::H()(1).range(s)(0).range(p)(0).range(q)); content<A0>(p, s, q); content<A1>(p, s, q); content<A2>(p, s, q); content<A3>(p, s, q); content<K1>(p, s, q); content<K2>(p, s, q); content<K3>(p, s, q); content<L2>(p, s, q); scalar(s, (K2*)0); scalar(s, (K3*)0); scalar(s, (L2*)0); }
static void longer() { V s = str({97, -128, 255}, mc::tier(6, 8)); mc::state(mc::H()(2).range(s)); V p(7, 98), q(3, -1); content<A0>(p, s, q); content<A3>(p, s, q); content<K2>(p, s, q); content<K3>(p, s, q); }
template <class T> static void large_of(const V& s, lg::Lcg& g) { int n = (int)s.size(); cumulative_hash<T> c(s.begin(), s.end()); auto pw = info<T>::mb(); MC_CHECK((int)c.size() == n, "size"); for (int q = 0; q < 40; q++) { int b = q == 0 ? 0 : g.below(n + 1), e = q == 0 ? n : b + g.below(n - b + 1); V sub(s.begin() + b, s.begin() + e); T h = direct<T>(sub); auto x = val<T>(sub); mc::op(); eq(h, x, "adding in order", V{b, e}); eq(c.get(b, e), x, "cumulative substring", V{b, e}); int m = b + (e - b) / 3; T l = c.get(b, m), r = c.get(m, e); eq(l + (r << (m - b)), x, "concatenation", V{b, e}); l.add(r, m - b); eq(l, x, "add of a hash", V{b, e}); T w; for (int i : lg::order(e - b, q % lg::NORDERS)) w.add(sub[i], i); eq(w, x, "adding out of order", V{b, e}); T y = h << b; y >>= b; eq(y, x, "shifting there and back", V{b, e}); } }
static void large() { static const int N[] = {50, 300, 2000}; int n = N[mc::choose(3)], kind = mc::choose(6), seed = mc::choose(3); mc::state(mc::H()(6)(n)(kind)(seed)); mc::trace("%d elements, kind %d, member %d", n, kind, seed); lg::Lcg g(n + kind * 5 + seed); V s; for (int i = 0; i < n; i++) s.push_back(kind == 0 ? 97 + g.below(26) : kind == 1 ? g.below(2) : kind == 2 ? -g.below(1000000) : kind == 3 ? (int)(g() & 0x7fffffff) - 1000000000 : kind == 4 ? i * 1000003 % 997 : i % (seed + 2)); large_of<A0>(s, g); large_of<A1>(s, g); large_of<A3>(s, g); large_of<K2>(s, g); large_of<K3>(s, g); }
static void bytes() { V s; int a = mc::choose(256); s = {a - 128, 3, mc::choose(16) * 17 - 128}; mc::state(mc::H()(3).range(s)); std::string t(s.begin(), s.end()), u = "xy" + t + "z"; cumulative_hash<A0> c(u.begin(), u.end()); cumulative_hash<K2> d(u.begin(), u.end()); mc::op(); eq(c.get(2, 5), val<A0>(s), "cumulative over char", s); eq(d.get(2, 5), val<K2>(s), "cumulative over char", s); }
// ---- power tables grown in any order; a fresh type for each order
template <int B, int BI> static void grow(int code) { typedef polynomial_hash1<101, B, BI> T; static const int sz[] = {1, 2, 9, 40}; std::vector<int> o{0, 1, 2, 3}; for (int i = 0; i < code; i++) std::next_permutation(o.begin(), o.end()); mc::op(); for (int r = 0; r < 2; r++) for (int i : o) { if (r == 0 && (code & 1)) T::ensure(sz[i]); V s(sz[i], 0); s.back() = 1; T h; h.add(1, sz[i] - 1); eq(h, val<T>(s), "a power of the base", s); T k(1); k <<= sz[i] - 1; eq(k, val<T>(s), "shift", s); k >>= sz[i] - 1; eq(k, val<T>({1}), "shift back", s); } }
static void tables() { int c = mc::choose(6); mc::state(mc::H()(4)(c)); static const int n = 24; (void)n; switch (c) { case 0: grow<2, 51>(0); break; case 1: grow<3, 34>(23); break; case 2: grow<4, 76>(7); break; case 3: grow<6, 17>(14); break; case 4: grow<7, 29>(5); break; case 5: grow<8, 38>(18); break; } }
// ---- first use and growth of the power tables through every pair of operations; a fresh type for each pair
// (the client defines the parameters; here modulo 101 with base k+2 for every k)
namespace altruct { namespace hash { template <size_t K, class I, class IT> I polynomial_hash<K, I, IT>::M[K]; template <size_t K, class I, class IT> I polynomial_hash<K, I, IT>::B[K]; template <size_t K, class I, class IT> I polynomial_hash<K, I, IT>::BI[K]; } }
static constexpr int p101(int b, int e) { return e == 0 ? 1 : int((long long)p101(b, e - 1) * b % 101); }
template <class T> static void touch(int op, int pos) {
    auto m = info<T>::mb(); auto pw = [&](int i, int e) { ll r = 1; for (int j = 0; j < e; j++) r = r * m[i].second % m[i].first; return r; }; auto inv = [&](int i, int e) { return pw(i, e * 99); }; T h; h.add(7, 0); T g; g.add(3, 0); T r = h; std::vector<ll> e;
    switch (op) { case 0: r = h << pos; break; case 1: r = h >> pos; break; case 2: r <<= pos; break; case 3: r >>= pos; break; case 4: r.add(g, pos); break; case 5: r.sub_shr(g, pos); break; case 6: r.add(3, pos); break; case 7: r.sub_shr(3, pos); break; }
    for (int i = 0; i < (int)m.size(); i++) e.push_back((op == 0 || op == 2 ? 7 * pw(i, pos) : op == 1 || op == 3 ? 7 * inv(i, pos) : op == 4 || op == 6 ? 7 + 3 * pw(i, pos) : 4 * inv(i, pos)) % 101);
    eq(r, e, "an operation growing the powers", V{op, pos}); }
template <class T> static void touches(int a, int b) { for (int p : {3, 4, 6, 5, 9, 20, 21, 60}) { touch<T>(p % 2 ? a : b, p); mc::op(); } }
template <int K> struct TouchK { static void run(int k, int a, int b) { if (k != K) return TouchK<K - 1>::run(k, a, b); typedef polynomial_hash<K> T; for (int i = 0; i < K; i++) T::M[i] = 101, T::B[i] = i + 2, T::BI[i] = p101(i + 2, 99); touches<T>(a, b); } }; template <> struct TouchK<3> { static void run(int, int, int) {} };
template <int K> struct Touch1 { static void run(int k, int a, int b) { if (k != K) return Touch1<K - 1>::run(k, a, b); touches<polynomial_hash1<101, K + 20, p101(K + 20, 99)>>(a, b); } }; template <> struct Touch1<-1> { static void run(int, int, int) {} };
static void growth1() { int a = mc::choose(8), b = mc::choose(8); mc::state(mc::hash(51, a, b)); Touch1<63>::run(a * 8 + b, a, b); }
static void growthK() { int a = mc::choose(8), b = mc::choose(3); static const int w[] = {0, 3, 5}; mc::state(mc::hash(52, a, b)); TouchK<27>::run(4 + a * 3 + b, a, (a + w[b]) % 8); }
template <class T, class I> __attribute__((noinline)) static T* listed_at(void* p, std::initializer_list<I> l) { return new (p) T(l); }
template <class T, class I, size_t K> static void components() { for (size_t n = 0; n <= K + 1; n++) { I c[] = {5, 7, 9, 11}; std::vector<char> buf(sizeof(T), 0x3c); T* t; // over memory that held something else
        switch (n) { case 0: t = listed_at<T, I>(buf.data(), {}); break; case 1: t = listed_at<T, I>(buf.data(), {c[0]}); break; case 2: t = listed_at<T, I>(buf.data(), {c[0], c[1]}); break; case 3: t = listed_at<T, I>(buf.data(), {c[0], c[1], c[2]}); break; default: t = listed_at<T, I>(buf.data(), {c[0], c[1], c[2], c[3]}); }
        std::vector<ll> e(K, 0); for (size_t i = 0; i < K && i < n; i++) e[i] = c[i]; eq(*t, e, "listing its components", V{(int)n}); } }
static void listed() { mc::op(); mc::state(mc::hash(53)); components<K1, int32_t, 1>(); components<K2, int32_t, 2>(); components<K3, int32_t, 3>(); components<L2, int64_t, 2>(); }
static void collect() {
    typedef std::tuple<int, int, int> t3; std::unordered_map<t3, int> m; std::unordered_map<std::pair<int, std::string>, int> pm; std::unordered_set<std::tuple<int>> s1; int n = 0; mc::op(); mc::state(5);
    for (int a = -3; a < 4; a++) for (int b = -3; b < 4; b++) { for (int c = -3; c < 4; c++) m[t3(a, b, c)] = n++; pm[{a, std::string(b + 3, 'x')}] = a * 10 + b; }
    n = 0; std::set<size_t> hs; for (int a = -3; a < 4; a++) for (int b = -3; b < 4; b++) { for (int c = -3; c < 4; c++) { auto it = m.find(std::make_tuple(a, b, c)); MC_CHECK(it != m.end() && it->second == n, "tuple lookup"); n++; MC_CHECK(std::hash<t3>()(t3(a, b, c)) == std::hash<t3>()(std::make_tuple(a, b, c)), "tuple hash"); hs.insert(std::hash<t3>()(t3(a, b, c))); } auto it = pm.find(std::make_pair(a, std::string(b + 3, 'x'))); MC_CHECK(it != pm.end() && it->second == a * 10 + b, "pair lookup"); MC_CHECK((std::hash<std::pair<int, int>>()(std::make_pair(a, b)) == std::hash<std::pair<int, int>>()(std::pair<int, int>(a, b))), "pair hash"); }
    MC_CHECK(m.size() == 343 && pm.size() == 49, "sizes"); for (int a = 0; a < 50; a++) s1.insert(std::make_tuple(a % 25)); MC_CHECK(s1.size() == 25, "one element tuples");
    std::unordered_set<altruct::graph::full_edge> es; for (int r = 0; r < 2; r++) for (int u = 0; u < 8; u++) for (int v = 0; v < 8; v++) es.insert({u, v}); MC_CHECK(es.size() == 64, "edges"); for (int u = 0; u < 9; u++) for (int v = 0; v < 9; v++) MC_CHECK(es.count({u, v}) == size_t(u < 8 && v < 8), "edge lookup");
}
MC_SETUP(all) { mc::add("small", small, 16); mc::add("longer", longer, 9); mc::add("bytes", bytes); mc::add("tables", tables); mc::add("growth_one_base", growth1); mc::add("growth_many_bases", growthK); mc::add("listed", listed); mc::add("collect", collect); }
MC_SETUP(large_setup) { mc::add("large", large, 8); }
