// C26 collections and searches: every short sequence through every collection helper; every boundary in every range through the binary searches.
// MC_BOUNDS: listed sequences of 100..70000 elements through every helper; every sequence of up to 6 (quick) / 8 (thorough) elements over 3 values through every helper (iterator and collection form, vector, list, set and string inputs, every predicate on the alphabet, every take length); every pair of sequences of up to 4/5 elements with every max_len for compare; every sorted sequence up to 8 elements; every range [lo, hi) and boundary over all of int8/uint8 and ranges at both extremes, around zero and of full width for 16/32/64-bit signed and unsigned indices, pointers and iterators; floating ranges with every boundary on a grid and several tolerances
// MC_ASSUME: numeric search over integers uses eps = 1; a floating search may end within eps (plus one ulp) of the boundary
#include "mc.h"
#include "large.h"
#include <stdint.h>
#include <string>
#include <vector>
#include <list>
#include <set>
#include <deque>
#include <functional>
#include <limits>
#include <math.h>
#include "altruct/algorithm/collections/collections.h"
#include "altruct/algorithm/search/binary_search.h"
namespace ac = altruct::collections; namespace as = altruct::search;
typedef std::vector<int> V;
static V seq(int maxlen, int k) { int n = mc::choose(maxlen + 1); V v; for (int i = 0; i < n; i++) v.push_back(mc::choose(k)); return v; }
#define EQ(a, b, what) do { auto A = (a); auto B = (b); if (!(A == B)) mc::fail("%s of %s is %s, expected %s", what, mc::show(v).c_str(), mc::show(A).c_str(), mc::show(B).c_str()); } while (0)
template<class T> static std::string pairs(const T& v) { std::string s; for (auto& p : v) s += std::to_string(p.first) + "x" + std::to_string(p.second) + " "; return s; }
static void helpers(int maxlen) {
    V v = seq(maxlen, 3); mc::op(); mc::state(mc::H().str(mc::show(v))); mc::trace("sequence %s", mc::show(v).c_str()); const V orig = v; int n = (int)v.size(); std::list<int> l(v.begin(), v.end()); std::set<int> st(v.begin(), v.end()); std::string str; for (int x : v) str += (char)('a' + x);
    V srt; for (int x = 0; x < 3; x++) for (int y : v) if (y == x) srt.push_back(x); V rev; for (int i = n - 1; i >= 0; i--) rev.push_back(v[i]);
    EQ(ac::sorted(v), srt, "sorted"); EQ(ac::sorted(v.begin(), v.end()), srt, "sorted(range)"); EQ(ac::sorted(l), srt, "sorted(list)"); EQ(ac::sorted(v.data(), v.data() + n), srt, "sorted(pointers)");
    EQ(ac::reversed(v), rev, "reversed"); EQ(ac::reversed(v.begin(), v.end()), rev, "reversed(range)"); EQ(ac::reversed(l), rev, "reversed(list)"); { V sv(st.begin(), st.end()), rs(st.rbegin(), st.rend()); EQ(ac::reversed(st), rs, "reversed(set)"); EQ(ac::sorted(st), sv, "sorted(set)"); }
    for (size_t k : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100}) { V w(v.begin(), v.begin() + std::min((int)k, n)); EQ(ac::take(v, k), w, "take"); EQ(ac::take(v.begin(), v.end(), k), w, "take(range)"); EQ(ac::take(l, k), w, "take(list)"); } EQ(ac::take(v, (size_t)-1), v, "take(max)");
    for (int m = 0; m < 8; m++) { auto p = [&](int x) { return (m >> x & 1) != 0; }; V w; for (int x : v) if (m >> x & 1) w.push_back(x); EQ(ac::filter(v, p), w, "filter"); EQ(ac::filter(v.begin(), v.end(), p), w, "filter(range)"); EQ(ac::filter(l, p), w, "filter(list)"); }
    { int calls = 0; auto f = [&](int x) { calls++; return (long long)x * 10000000000LL + 1; }; std::vector<long long> w; for (int x : v) w.push_back(x * 10000000000LL + 1); MC_CHECK(ac::transform(v, f) == w, "transform of %s", mc::show(v).c_str()); MC_CHECK(calls == n, "transform calls the functor %d times on %d elements", calls, n); MC_CHECK(ac::transform(v.begin(), v.end(), f) == w && ac::transform(l, f) == w, "transform(range) of %s", mc::show(v).c_str()); auto g = [](int x) { return std::string(x, 'k'); }; auto s = ac::transform(v, g); for (int i = 0; i < n; i++) MC_CHECK((int)s[i].size() == v[i], "transform to string"); MC_CHECK((int)s.size() == n, "transform to string"); }
    { auto r = ac::run_length(v); V back; bool ok = true; for (size_t i = 0; i < r.size(); i++) { ok = ok && r[i].second >= 1 && (i == 0 || r[i].first != r[i - 1].first); for (int j = 0; j < r[i].second; j++) back.push_back(r[i].first); } MC_CHECK(ok && back == v, "run_length of %s is %s", mc::show(v).c_str(), pairs(r).c_str()); MC_CHECK(ac::run_length(v.begin(), v.end()) == r && ac::run_length(l) == r, "run_length(range) of %s", mc::show(v).c_str()); auto rs = ac::run_length(str); MC_CHECK(rs.size() == r.size(), "run_length(string)"); for (size_t i = 0; i < r.size(); i++) MC_CHECK(rs[i].first == 'a' + r[i].first && rs[i].second == r[i].second, "run_length(string) of %s", str.c_str()); }
    for (int x = -1; x < 4; x++) { bool w = false; for (int y : v) w = w || y == x; MC_CHECK(ac::contains(v, x) == w && ac::contains(v.begin(), v.end(), x) == w && ac::contains(l, x) == w && ac::contains(st, x) == w && ac::contains(str, (char)('a' + x)) == w, "contains(%s, %d)", mc::show(v).c_str(), x); }
    for (size_t more : {0, 1, 2, 5, 40}) { V c = v; size_t before = c.capacity(); ac::reserve_more(c, more); MC_CHECK(c == v, "reserve_more changes %s into %s", mc::show(v).c_str(), mc::show(c).c_str()); MC_CHECK(c.capacity() >= c.size() + more && c.capacity() >= before, "reserve_more(%d) of %d elements leaves capacity %d", (int)more, n, (int)c.capacity()); if (n + more > before) MC_CHECK(c.capacity() >= before + before / 2, "reserve_more grows from %d to %d only", (int)before, (int)c.capacity()); }
    MC_CHECK(v == orig, "a helper changes its argument");
}
static void growth() { // repeated reserve_more keeps the number of reallocations logarithmic
    V c; int moves = 0; mc::op(); mc::state(1); for (int i = 0; i < 20000; i++) { size_t b = c.capacity(); ac::reserve_more(c, 1); if (c.capacity() != b) moves++; c.push_back(i); } MC_CHECK(moves < 60, "%d reallocations for 20000 elements", moves); for (int i = 0; i < 20000; i++) MC_CHECK(c[i] == i, "element %d is lost", i);
}
static void comparing(int maxlen) {
    V v = seq(maxlen, 3), w = seq(maxlen, 3); mc::op(); mc::state(mc::H().str(mc::show(v)).str(mc::show(w))); mc::trace("%s against %s", mc::show(v).c_str(), mc::show(w).c_str());
    for (int k = -1; k <= maxlen + 1; k++) { V a = v, b = w; if (k >= 0) { a.resize(std::min((int)a.size(), k)); b.resize(std::min((int)b.size(), k)); } int want = a == b ? 0 : a < b ? -1 : 1; int got = k < 0 ? ac::compare(v.begin(), v.end(), w.begin(), w.end()) : ac::compare(v.begin(), v.end(), w.begin(), w.end(), k); MC_CHECK(got == want, "compare of %s and %s (max_len %d) is %d, expected %d", mc::show(v).c_str(), mc::show(w).c_str(), k, got, want); std::list<int> l(w.begin(), w.end()); if (k >= 0) MC_CHECK(ac::compare(v.begin(), v.end(), l.begin(), l.end(), k) == want, "compare with a list"); }
}
// ---- binary searches
// boundary t: the predicate is false below t and true from t on
template<class T> static void one(T lo, T hi, T t) {
    long steps = 0; bool out = false; auto pred = [&](T x) { if (!(lo <= x && x < hi)) out = true; if (++steps > 200) mc::fail("binary search over [%lld, %lld) with the boundary at %lld does not converge", (long long)lo, (long long)hi, (long long)t); return x >= t; };
    T r = as::binary_search_pred(lo, hi, pred); MC_CHECK(!out, "the predicate is evaluated outside [%lld, %lld)", (long long)lo, (long long)hi); MC_CHECK(r == t, "binary_search_pred over [%lld, %lld) with the boundary at %lld returns %lld", (long long)lo, (long long)hi, (long long)t, (long long)r);
    steps = 0; r = as::binary_search_num(lo, hi, (T)1, pred); MC_CHECK(!out, "the predicate is evaluated outside [%lld, %lld) (num)", (long long)lo, (long long)hi); MC_CHECK(r == t, "binary_search_num over [%lld, %lld) with the boundary at %lld returns %lld", (long long)lo, (long long)hi, (long long)t, (long long)r);
}
template<class T> static void all8() { typedef std::numeric_limits<T> L; int lo = mc::choose(256) + (int)L::min(); mc::state(lo); for (int hi = lo; hi <= (int)L::max(); hi++) { mc::op(); for (int t = lo; t <= hi; t++) one<T>((T)lo, (T)hi, (T)t); } }
template<class T> static void wide() {
    typedef std::numeric_limits<T> L; T mn = L::min(), mx = L::max(); std::vector<T> p; for (int i = 0; i < 5; i++) { p.push_back(mn + i); p.push_back(mx - i); p.push_back((T)(i - (L::is_signed ? 2 : 0))); p.push_back((T)(mx / 2 + i)); p.push_back((T)(mn / 2 + i)); p.push_back((T)(mx / 3 * 2 - i)); } for (int b = 1; b + 1 < L::digits; b += 3) p.push_back((T)((T)1 << b));
    std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end()); int n = (int)p.size(); T lo = p[mc::choose(n)], hi = p[mc::choose(n)]; if (hi < lo) return; mc::op(); mc::state(mc::H()((uint64_t)lo)((uint64_t)hi)); mc::trace("range [%lld, %lld)", (long long)lo, (long long)hi); for (T t : p) if (lo <= t && t <= hi) one<T>(lo, hi, t);
}
static void empty_or_reversed() { mc::op(); mc::state(1); for (int a = -3; a <= 3; a++) for (int b = -3; b <= a; b++) { bool called = false; int r = as::binary_search_pred(a, b, [&](int) { called = true; return true; }); if (b == a) MC_CHECK(r == a && !called, "binary_search_pred over the empty range at %d returns %d", a, r); r = as::binary_search_num(a, b, 1, [&](int) { called = true; return true; }); if (b == a) MC_CHECK(r == a && !called, "binary_search_num over the empty range at %d returns %d", a, r); } }
static void sequences() { // iterators, pointers and functions over sorted sequences
    int n = mc::choose(9); V v; int x = 0; for (int i = 0; i < n; i++) { x += mc::choose(3); v.push_back(x); } mc::op(); mc::state(mc::H().str(mc::show(v))); mc::trace("sorted %s", mc::show(v).c_str()); std::deque<int> d(v.begin(), v.end());
    for (int k = -1; k <= x + 1; k++) {
        int lb = 0, ub = 0; for (int y : v) { lb += y < k; ub += y <= k; }
        int r = (int)(as::binary_search_pred(v.begin(), v.end(), [&](V::iterator it) { return *it >= k; }) - v.begin()); MC_CHECK(r == lb, "lower bound of %d in %s by iterators is %d", k, mc::show(v).c_str(), r); r = (int)(as::binary_search_pred(d.begin(), d.end(), [&](std::deque<int>::iterator it) { return *it > k; }) - d.begin()); MC_CHECK(r == ub, "upper bound of %d in %s by deque iterators is %d", k, mc::show(v).c_str(), r); r = (int)(as::binary_search_pred((const int*)v.data(), (const int*)v.data() + n, [&](const int* p) { return *p >= k; }) - v.data()); MC_CHECK(r == lb, "lower bound of %d in %s by pointers is %d", k, mc::show(v).c_str(), r);
        auto f = [&](int i) { if (i < 0 || i >= n) mc::fail("f is evaluated at %d of %d", i, n); return v[i]; }; auto g = [&](int i) { if (i < 0 || i >= n) mc::fail("f is evaluated at %d of %d", i, n); return -v[i]; };
        MC_CHECK(as::lower_bound_num(0, n, 1, k, f) == lb, "lower_bound_num(%d) in %s is %d, expected %d", k, mc::show(v).c_str(), as::lower_bound_num(0, n, 1, k, f), lb); MC_CHECK(as::upper_bound_num(0, n, 1, k, f) == ub, "upper_bound_num(%d) in %s is %d", k, mc::show(v).c_str(), as::upper_bound_num(0, n, 1, k, f));
        MC_CHECK(as::lower_bound_num(0, n, 1, -k, g, true) == lb, "decreasing lower_bound_num(%d) in -%s is %d, expected %d", -k, mc::show(v).c_str(), as::lower_bound_num(0, n, 1, -k, g, true), lb); MC_CHECK(as::upper_bound_num(0, n, 1, -k, g, true) == ub, "decreasing upper_bound_num(%d) in -%s is %d", -k, mc::show(v).c_str(), as::upper_bound_num(0, n, 1, -k, g, true));
    }
}
static void floating() {
    static const double lohi[][2] = {{0, 1}, {-1, 1}, {0, 1000}, {-1e6, 1e6}, {1e9, 1e9 + 1}, {-5, -4}, {0, 1e-3}}; static const double epss[] = {1e-3, 1e-6, 1e-9, 1e-12, 0}; int c = mc::choose(7), e = mc::choose(5), t = mc::choose(65); double lo = lohi[c][0], hi = lohi[c][1], eps = epss[e], b = lo + (hi - lo) * t / 64; mc::op(); mc::state(mc::H()(c)(e)(t));
    long steps = 0; auto pred = [&](double x) { if (++steps > 2000) mc::fail("floating search over [%g, %g) does not converge", lo, hi); return x >= b; }; double r = as::binary_search_num(lo, hi, eps, pred), tol = eps + 4 * 2.3e-16 * std::max(fabs(lo), fabs(hi)); MC_CHECK(fabs(r - b) <= tol, "binary_search_num over [%g, %g) with eps %g and the boundary %.17g returns %.17g", lo, hi, eps, b, r); MC_CHECK(r >= lo && r <= hi + eps, "floating search leaves the range: %.17g", r);
    double inv = as::lower_bound_num(lo, hi, eps, 3 * b + 1, [](double x) { return 3 * x + 1; }); MC_CHECK(fabs(inv - b) <= tol + 1e-15 * (1 + fabs(b)), "lower_bound_num over [%g, %g) inverts 3x+1 at %.17g as %.17g", lo, hi, b, inv); inv = as::upper_bound_num(lo, hi, eps, -b, [](double x) { return -x; }, true); MC_CHECK(fabs(inv - b) <= tol + 1e-15 * (1 + fabs(b)), "decreasing upper_bound_num at %.17g gives %.17g", b, inv);
}
static void large() { static const int N[] = {100, 255, 256, 1000, 70000}; int n = N[mc::choose(5)], kind = mc::choose(6); mc::state(mc::H()(9)(n)(kind)); mc::trace("%d elements, kind %d", n, kind); lg::Lcg g(n + kind); V v; for (int i = 0; i < n; i++) v.push_back(kind == 0 ? 5 : kind == 1 ? g.below(2) : kind == 2 ? (int)g() - 1000000000 : kind == 3 ? i / 300 : kind == 4 ? n - i : g.below(100) / 99); mc::op(); std::list<int> l(v.begin(), v.end());
    V w = v; std::stable_sort(w.begin(), w.end()); MC_CHECK(ac::sorted(v) == w && ac::sorted(l) == w && ac::sorted(v.begin(), v.end()) == w, "sorted"); w.assign(v.rbegin(), v.rend()); MC_CHECK(ac::reversed(v) == w && ac::reversed(l) == w, "reversed"); for (int k : {0, 1, 127, 128, 255, 256, 300, n - 1, n, n + 1}) { w.assign(v.begin(), v.begin() + std::min(k, n)); MC_CHECK(ac::take(v, k) == w && ac::take(l, k) == w, "take %d", k); } auto odd = [](int x) { return x % 2 != 0; }; w.clear(); for (int x : v) if (odd(x)) w.push_back(x); MC_CHECK(ac::filter(v, odd) == w && ac::filter(l, odd) == w, "filter"); std::vector<long long> t; for (int x : v) t.push_back(x * 7LL); MC_CHECK(ac::transform(v, [](int x) { return x * 7LL; }) == t, "transform");
    std::vector<std::pair<int, int>> rl; for (int x : v) if (rl.size() && rl.back().first == x) rl.back().second++; else rl.push_back({x, 1}); auto r = ac::run_length(v); MC_CHECK(r.size() == rl.size(), "run_length finds %d runs, expected %d", (int)r.size(), (int)rl.size()); for (size_t i = 0; i < rl.size(); i++) MC_CHECK(r[i].first == rl[i].first && (int)r[i].second == rl[i].second, "run %d has length %d, expected %d", (int)i, (int)r[i].second, rl[i].second); MC_CHECK(ac::contains(v, v[n / 2]) && ac::contains(l, v[n - 1]) && !ac::contains(v, 123456789) && !ac::contains(l, 123456789), "contains");
    for (int k : {0, 1, n / 2, n - 1}) { V u = v; u[k]++; MC_CHECK(ac::compare(v.begin(), v.end(), u.begin(), u.end()) == -1 && ac::compare(u.begin(), u.end(), v.begin(), v.end()) == 1 && ac::compare(v.begin(), v.end(), u.begin(), u.end(), (size_t)k) == 0 && ac::compare(v.begin(), v.end(), u.begin(), u.end(), (size_t)k + 1) == -1, "compare of sequences that differ at %d", k); u = v; u.resize(k); MC_CHECK(ac::compare(v.begin(), v.end(), u.begin(), u.end()) == 1 && ac::compare(u.begin(), u.end(), v.begin(), v.end()) == -1, "compare with a prefix"); } MC_CHECK(ac::compare(v.begin(), v.end(), l.begin(), l.end()) == 0, "compare with the same");
    for (size_t more : {0, 1, n / 2, n, 3 * n}) { V c = v; ac::reserve_more(c, more); MC_CHECK(c == v && c.capacity() >= c.size() + more, "reserve_more"); } }
MC_SETUP(all) {
    mc::add("large", large, 4);
    mc::add("helpers", [] { helpers(mc::tier(6, 8)); }, 8); mc::add("compare", [] { comparing(mc::tier(4, 5)); }, 16); mc::add("growth", growth, 1); mc::add("sequences", sequences, 8); mc::add("floating", floating, 4); mc::add("empty", empty_or_reversed, 1);
    mc::add("int8", all8<int8_t>, 8); mc::add("uint8", all8<uint8_t>, 8); mc::add("int16", wide<int16_t>, 2); mc::add("uint16", wide<uint16_t>, 2); mc::add("int32", wide<int32_t>, 4); mc::add("uint32", wide<uint32_t>, 4); mc::add("int64", wide<int64_t>, 4); mc::add("uint64", wide<uint64_t>, 4);
}
