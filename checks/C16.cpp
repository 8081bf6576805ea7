// C16 string search and string indexes against naive scans.
// MC_BOUNDS: listed long texts (8 kinds of up to 1500 letters) for every structure, dictionaries of up to 120 words; KMP: every binary text up to 11 (thorough 13) with every pattern up to 6 letters and every ternary text up to 7 with patterns up to 4, every early stop; multi-pattern automaton: every ordered choice of up to 3 (4) words of length 1..3 over 2 letters (duplicates included) and 2 words over 3 letters, every transition of the automaton and every text up to 7 letters; suffix array: every text over 2 letters up to 13 (15), 3 letters up to 8 (9), 4 letters up to 6 (7), permutations of 7, and every periodic text w^k t up to 60 letters, all pairs of positions and (up to 7 letters) all pairs of substrings; palindrome tree: the same text families with every prefix observed; prefix tree: every history of 4 (5) add / append / erase (by word, id, iterators) / clear operations over the 14 (6) binary words with complete observation after each
#include "mc.h"
#include "large.h"
#include "altruct/algorithm/search/kmp_search.h"
#include "altruct/algorithm/collections/collections.h"
#include "altruct/structure/container/range_minimum_query.h"
#include "altruct/structure/container/suffix_array.h"
#include "altruct/structure/container/aho_corasick_trie.h"
#include "altruct/structure/container/palindrome_tree.h"
#include "altruct/structure/container/prefix_tree.h"
#include <map>
#include <set>
#include <list>
#include <numeric>
#include <algorithm>
using namespace altruct; typedef std::string S;
static S word(int k, int minlen, int maxlen) { int len = minlen + mc::choose(maxlen - minlen + 1); S s; for (int i = 0; i < len; i++) s += char('a' + mc::choose(k)); return s; }
static std::vector<S> words(int k, int maxlen) { std::vector<S> r, cur{""}; for (int l = 1; l <= maxlen; l++) { std::vector<S> nx; for (auto& w : cur) for (int c = 0; c < k; c++) nx.push_back(w + char('a' + c)); r.insert(r.end(), nx.begin(), nx.end()); cur = nx; } return r; }
static std::vector<size_t> occ(const S& t, const S& p) { std::vector<size_t> r; for (size_t i = 0; i + p.size() <= t.size(); i++) if (t.compare(i, p.size(), p) == 0) r.push_back(i); return r; }
// ---- KMP
static void kmp_check(const S& t, const S& p) {
    auto x = occ(t, p); for (size_t stop = 1; stop <= x.size() + 1; stop++) { std::vector<size_t> g; size_t r = search::kmp_search(t.begin(), t.size(), p.begin(), p.size(), [&](size_t pos) { g.push_back(pos); return g.size() < stop; }); mc::op();
        auto e = x; if (e.size() > stop) e.resize(stop); MC_CHECK(g == e, "kmp '%s' in '%s' reports %s expected %s", p.c_str(), t.c_str(), mc::show(g).c_str(), mc::show(e).c_str()); MC_CHECK(r == (e.empty() ? t.size() : e.back()), "kmp '%s' in '%s' returns %d", p.c_str(), t.c_str(), (int)r); }
}
static void kmp(int k, int n, int m) { static std::map<int, std::vector<S>> pats; auto& P = pats[k * 100 + m]; if (P.empty()) P = words(k, m); S t = word(k, 0, n); mc::state(mc::H()(1)(k).str(t)); for (auto& p : P) kmp_check(t, p);
    std::vector<int> v(t.begin(), t.end()), q(t.begin(), t.begin() + t.size() / 2); if (!q.empty()) { std::vector<size_t> g; search::kmp_search(v.data(), v.size(), q.data(), q.size(), [&](size_t pos) { g.push_back(pos); return true; }); MC_CHECK(g == occ(t, S(q.begin(), q.end())), "kmp on an int array"); } }
static void kmp_periodic() { S u = word(2, 1, 4), v = word(2, 0, 3); int k = 1 + mc::choose(6); S t; for (int i = 0; i < k; i++) t += u; t += v + t; mc::state(mc::H()(2).str(t)); for (size_t i = 0; i < t.size(); i++) for (size_t l = 1; l + i <= t.size(); l += 1 + l / 4) kmp_check(t, t.substr(i, l)); }
// ---- Aho-Corasick
template <class AC> static void aho_check(AC& t, const std::vector<S>& ws, int k, const std::vector<S>& texts) {
    t.build(); mc::op(); std::map<S, int> id; id[""] = t.root(); std::set<S> pre{""}; for (auto& w : ws) for (size_t l = 1; l <= w.size(); l++) pre.insert(w.substr(0, l));
    S D; for (auto& w : ws) D += w + " ";
    auto longest = [&](const S& s) { for (size_t i = 0; i <= s.size(); i++) if (pre.count(s.substr(i))) return s.substr(i); return S(); };
    std::set<int> used{(int)t.root()};
    for (auto& p : pre) if (!p.empty()) { int u = id[p.substr(0, p.size() - 1)]; id[p] = (int)t.move_next(u, p.back() - 'a'); MC_CHECK(id[p] > 0 && id[p] < (int)t.size() && used.insert(id[p]).second, "dictionary {%s}: no node for '%s'", D.c_str(), p.c_str()); }
    for (auto& p : pre) { int c = 0; for (auto& w : ws) if (p.size() >= w.size() && p.compare(p.size() - w.size(), w.size(), w) == 0) c++; MC_CHECK(t[id[p]].word_cnt == c, "dictionary {%s}: node '%s' counts %d words, expected %d", D.c_str(), p.c_str(), (int)t[id[p]].word_cnt, c);
        for (int a = 0; a < k; a++) { S q = longest(p + char('a' + a)); MC_CHECK(t.move_next(id[p], a) == id[q], "dictionary {%s}: transition from '%s' by '%c'", D.c_str(), p.c_str(), 'a' + a); } }
    for (auto& x : texts) { int64_t e = 0; for (auto& w : ws) e += (int64_t)occ(x, w).size(); int64_t g = t.count_matches(x.begin(), x.end(), [](char c) { return c - 'a'; }); mc::op(); MC_CHECK(g == e, "dictionary {%s}: %lld matches in '%s', expected %lld", D.c_str(), (long long)g, x.c_str(), (long long)e); S y = x; for (char& c : y) c -= 'a'; MC_CHECK(t.count_matches(y.begin(), y.end()) == e, "second count with ordinals"); }
}
static void aho(int k, int maxw, int maxlen, int textlen) {
    static std::map<int, std::vector<S>> cache; auto& W = cache[k * 10 + maxlen]; if (W.empty()) W = words(k, maxlen); auto& T = cache[100 + k * 10 + textlen]; if (T.empty()) T = words(k, textlen);
    int n = mc::choose(maxw + 1); std::vector<S> ws; mc::H h; h(3)(k); for (int i = 0; i < n; i++) { ws.push_back(W[mc::choose((int)W.size())]); h.str(ws.back()); } mc::state(h);
    container::aho_corasick_trie<> t; for (auto& w : ws) { auto i = t.insert(w.begin(), w.end(), [](char c) { return c - 'a'; }); MC_CHECK(i > 0 && i < t.size(), "insert"); } aho_check(t, ws, k, T);
    container::aho_corasick_trie<4, int64_t, int> t2; std::vector<int> ids; for (auto& w : ws) { std::vector<int> v; for (char c : w) v.push_back(c - 'a'); ids.push_back((int)t2.insert(v.begin(), v.end())); } for (size_t i = 0; i < ws.size(); i++) for (size_t j = 0; j < i; j++) MC_CHECK((ids[i] == ids[j]) == (ws[i] == ws[j]), "insert returns the wrong node"); aho_check(t2, ws, k, std::vector<S>{T.back(), T[T.size() / 2]});
}
static void aho_long() { S a = word(2, 1, 5), b = word(2, 1, 5); S t = a + b + a + a + b; std::vector<S> ws{a + b, a, b + b, b, a + a}; mc::state(mc::H()(4).str(a)(0).str(b)); container::aho_corasick_trie<2> x; for (auto& w : ws) x.insert(w.begin(), w.end(), [](char c) { return c - 'a'; }); aho_check(x, ws, 2, {t, b + t + b, "", a}); }
// ---- suffix array
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
template <class SA, class V> static void suffix_check(const SA& sa, const V& s, bool substrings) {
    int n = (int)s.size(); mc::op(); MC_CHECK((int)sa.size() == n, "size"); auto str = [&] { return mc::show(s); };
    std::vector<int> o(n + 1); std::iota(o.begin(), o.end(), 0); std::sort(o.begin(), o.end(), [&](int a, int b) { return std::lexicographical_compare(s.begin() + a, s.end(), s.begin() + b, s.end()); });
    std::vector<std::vector<int>> lcp(n + 2, std::vector<int>(n + 2, 0)); for (int i = n - 1; i >= 0; i--) for (int j = n - 1; j >= 0; j--) lcp[i][j] = s[i] == s[j] ? lcp[i + 1][j + 1] + 1 : 0;
    for (int k = 0; k <= n; k++) { MC_CHECK((int)sa.get_kth_suffix(k) == o[k], "suffix %d of %s is %d expected %d", k, str().c_str(), (int)sa.get_kth_suffix(k), o[k]); MC_CHECK((int)sa.get_suffix_order(o[k]) == k, "order of suffix %d of %s", o[k], str().c_str()); }
    for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) MC_CHECK((int)sa.get_lcp(i, j) == lcp[i][j], "lcp(%d,%d) of %s is %d expected %d", i, j, str().c_str(), (int)sa.get_lcp(i, j), lcp[i][j]);
    for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) for (int a = i; a <= n; a++) for (int b = j; b <= n; b++) { if (!substrings && (a - i > lcp[i][j] + 1 || b - j > lcp[i][j] + 1 || (a - i) + 2 < lcp[i][j])) continue; int e = std::lexicographical_compare(s.begin() + i, s.begin() + a, s.begin() + j, s.begin() + b) ? -1 : std::lexicographical_compare(s.begin() + j, s.begin() + b, s.begin() + i, s.begin() + a) ? 1 : 0; MC_CHECK(sgn(sa.compare_substrings(i, a, j, b)) == e, "compare [%d,%d) with [%d,%d) of %s: %d expected %d", i, a, j, b, str().c_str(), (int)sa.compare_substrings(i, a, j, b), e); }
}
static void suffix(int k, int n) {
    S s = word(k, 0, n); mc::state(mc::H()(5).str(s)); bool sub = s.size() <= 6;
    container::suffix_array<> sa(s.begin(), s.end()); suffix_check(sa, s, sub); 
    if (s.size() <= 8) { std::vector<int> v(s.begin(), s.end()); static const int val[] = {0, 1, 7, 300}; for (int& x : v) x = val[x - 'a']; container::suffix_array<int, int> si(v.begin(), v.end()); suffix_check(si, v, false);
        std::vector<uint8_t> u(s.begin(), s.end()); for (auto& x : u) x = x == 'a' ? 0 : x == 'b' ? 255 : 200 + x; container::suffix_array<uint8_t, int64_t> su(u.begin(), u.end()); suffix_check(su, u, false); }
}
static void suffix_periodic() { S u = word(2, 1, 4), v = word(2, 0, 3); int k = 1 + mc::choose(12); S t = v.substr(0, v.size() / 2); for (int i = 0; i < k; i++) t += u; t += v; mc::state(mc::H()(6).str(t)); container::suffix_array<> sa(t.begin(), t.end()); suffix_check(sa, t, false); }
static void suffix_morphic() { // images of a word under iterated substitutions: deep recursion of the induced sorting
    static const char* sub[][2] = {{"ab", "a"}, {"ab", "ba"}, {"aab", "b"}, {"ba", "a"}, {"abb", "ab"}}; int s = mc::choose(5), cut = mc::choose(60); S w = "a"; while (w.size() < 70) { S x; for (char c : w) x += sub[s][c - 'a']; w = x; if (w.size() == 1) break; } if ((int)w.size() > 70) w.resize(70); w = w.substr(std::min((size_t)cut, w.size() - 1)); if (mc::choose(2)) std::reverse(w.begin(), w.end()); mc::state(mc::H()(7).str(w)); container::suffix_array<> sa(w.begin(), w.end()); suffix_check(sa, w, false); }
static void suffix_perm() { int n = 7; std::vector<int> p, pool(n); std::iota(pool.begin(), pool.end(), 0); while (!pool.empty()) { int i = pool.size() == 1 ? 0 : mc::choose((int)pool.size()); p.push_back(pool[i] * 3); pool.erase(pool.begin() + i); } mc::state(mc::H()(8).range(p)); container::suffix_array<int> sa(p.begin(), p.end()); suffix_check(sa, p, true); }
// ---- palindrome tree
template <class T> static void pal_check(const S& s, bool ctor) {
    typedef container::palindrome_tree<> PT; T t; auto ispal = [](const S& x) { return std::equal(x.begin(), x.end(), x.rbegin()); }; std::set<S> seen; int64_t total = 0;
    auto observe = [&](T& t, size_t n, bool prop) {
        MC_CHECK(t.total() == total && (size_t)t.distinct() == seen.size() && (size_t)t.size() == seen.size() + t.first(), "palindromes of '%s': total %lld expected %lld, distinct %d expected %d", s.substr(0, n).c_str(), (long long)t.total(), (long long)total, (int)t.distinct(), (int)seen.size());
        S p = s.substr(0, n); size_t L = n; while (L && !ispal(p.substr(n - L))) L--; MC_CHECK((size_t)t[t.longest_suffix()].len == L, "longest palindromic suffix of '%s' has length %d expected %d", p.c_str(), (int)t[t.longest_suffix()].len, (int)L);
        std::map<S, int> id; for (int i = t.first(); i < (int)t.size(); i++) { auto& d = t[i]; MC_CHECK(d.len > 0 && d.pos >= 0 && d.pos + d.len <= (int)n, "node %d of '%s'", i, p.c_str()); S w = p.substr(d.pos, d.len); MC_CHECK(seen.count(w) && !id.count(w), "node %d of '%s' is '%s'", i, p.c_str(), w.c_str()); id[w] = i; }
        for (auto& kv : id) { const S& w = kv.first; auto& d = t[kv.second]; auto o = occ(p, w); MC_CHECK((size_t)d.pos == o[0], "first occurrence of '%s' in '%s' is %d", w.c_str(), p.c_str(), (int)d.pos); int depth = 0; size_t suf = 0; for (size_t l = 1; l <= w.size(); l++) if (ispal(w.substr(w.size() - l))) { depth++; if (l < w.size()) suf = l; }
            MC_CHECK(d.depth == depth && (size_t)t[d.suff].len == suf && (!suf || d.suff == id[w.substr(w.size() - suf)]), "suffix link of '%s' in '%s'", w.c_str(), p.c_str());
            for (int c = 0; c < 3; c++) { S x = char('a' + c) + w + char('a' + c); int y = id.count(x) ? id[x] : 0; MC_CHECK(d.next[c] == y, "next of '%s' in '%s'", w.c_str(), p.c_str()); }
            if (prop) MC_CHECK((size_t)d.cnt == o.size(), "count of '%s' in '%s' is %d expected %d", w.c_str(), p.c_str(), (int)d.cnt, (int)o.size()); }
    };
    for (size_t n = 1; n <= s.size(); n++) { int nw = 0; for (size_t l = 1; l <= n; l++) { S w = s.substr(n - l, l); if (ispal(w)) { total++; nw += seen.insert(w).second; } } int r = (int)t.add(s[n - 1], T::ordinal_lower_alpha); mc::op(); MC_CHECK(r == nw, "add reports %d new palindromes, expected %d", r, nw); observe(t, n, false); }
    t.propagate(); observe(t, s.size(), true);
    T u(s.begin(), s.end(), T::ordinal_lower_alpha); u.propagate(); observe(u, s.size(), true);
    T v; size_t h = s.size() / 2; int a = (int)v.add_all(s.begin(), s.begin() + h, T::ordinal_lower_alpha), b = (int)v.add_all(s.begin() + h, s.end(), T::ordinal_lower_alpha); MC_CHECK(a + b == (int)seen.size(), "add_all"); v.propagate(); observe(v, s.size(), true);
}
static void pal(int k, int n) { S s = word(k, 0, n); mc::state(mc::H()(9).str(s)); pal_check<container::palindrome_tree<>>(s, false); }
static void pal_periodic() { S u = word(2, 1, 4), v = word(2, 0, 3); int k = 1 + mc::choose(6); S t; for (int i = 0; i < k; i++) t += u; t += v; t += S(t.rbegin(), t.rend()).substr(0, 8); mc::state(mc::H()(10).str(t)); pal_check<container::palindrome_tree<3, int16_t>>(t, false); }
// ---- prefix tree
typedef container::prefix_tree<2> PT2;
static const char* ord_name = "prefix tree";
static void prefix_verify(PT2& t, const std::vector<S>& m, const std::vector<S>& W) { // m[0] = ""; ids are positions
    auto o = PT2::ordinal_lower_alpha; auto l = PT2::letter_lower_alpha; S D; for (auto& w : m) D += w + " "; std::set<S> pre; for (auto& w : m) for (size_t k = 1; k <= w.size(); k++) pre.insert(w.substr(0, k));
    MC_CHECK(t.num_words() == (int)m.size() - 1 && t.num_letters() == (int)pre.size(), "words {%s}: %d words %d letters", D.c_str(), t.num_words(), t.num_letters());
    for (size_t i = 0; i < m.size(); i++) MC_CHECK(t.get((int)i, l) == m[i], "words {%s}: word %d is '%s'", D.c_str(), (int)i, t.get((int)i, l).c_str());
    for (auto& w : W) { auto it = std::find(m.begin() + 1, m.end(), w); int e = it == m.end() ? 0 : int(it - m.begin()); MC_CHECK(t.find(w, o) == e && t.find(w.begin(), w.end(), o) == e, "words {%s}: find '%s' gives %d", D.c_str(), w.c_str(), t.find(w, o)); } MC_CHECK(t.find("", o) == 0, "find of the empty word");
    for (size_t i = 0; i < m.size(); i++) { std::vector<std::pair<S, int>> e, g; for (size_t j = 1; j < m.size(); j++) if (m[j].compare(0, m[i].size(), m[i]) == 0) e.push_back({m[j], (int)j}); std::sort(e.begin(), e.end()); t.for_each((int)i, [&](const S& s, int k) { g.push_back({s, k}); }, l); MC_CHECK(g == e, "words {%s}: iteration from '%s'", D.c_str(), m[i].c_str()); if (!i) { g.clear(); t.for_each([&](const S& s, int k) { g.push_back({s, k}); }, l); MC_CHECK(g == e, "words {%s}: iteration", D.c_str()); } }
}
static void prefix() {
    static std::vector<S> W = words(2, 3); int depth = mc::tier(4, 5), nw = (int)W.size(); PT2 t; std::vector<S> m{""}; auto o = PT2::ordinal_lower_alpha;
    for (int step = 0; step < depth; step++) {
        int kind = mc::choose(5); mc::op();
        auto add = [&](const S& w) { if (w.empty()) return 0; auto it = std::find(m.begin() + 1, m.end(), w); if (it != m.end()) return int(it - m.begin()); m.push_back(w); return (int)m.size() - 1; };
        if (kind == 0) { const S& w = W[mc::choose(nw)]; int e = add(w); mc::trace("add %s", w.c_str()); int r = step & 1 ? t.add(w.begin(), w.end(), o) : t.add(w, o); MC_CHECK(r == e, "add '%s' returns %d expected %d", w.c_str(), r, e); }
        else if (kind == 1) { int id = mc::choose((int)m.size()); int x = mc::choose(4); S w = x == 3 ? "" : x == 2 ? "ab" : x ? "b" : "a"; mc::trace("append %d %s", id, w.c_str()); int e = add(m[id] + w), r = step & 1 ? t.append(id, w.begin(), w.end(), o) : t.append(id, w, o); MC_CHECK(r == e, "append to %d returns %d expected %d", id, r, e); }
        else if (kind == 2) { int id = mc::choose((int)m.size()); mc::trace("erase id %d", id); int r = t.erase(id); MC_CHECK(r == id, "erase %d returns %d", id, r); if (id) { std::swap(m[id], m.back()); m.pop_back(); } }
        else if (kind == 3) { const S& w = W[mc::choose(nw)]; mc::trace("erase %s", w.c_str()); auto it = std::find(m.begin() + 1, m.end(), w); int e = it == m.end() ? 0 : int(it - m.begin()); int r = step & 1 ? t.erase(w, o) : t.erase(w.begin(), w.end(), o); MC_CHECK(r == e, "erase '%s' returns %d expected %d", w.c_str(), r, e); if (e) { std::swap(m[e], m.back()); m.pop_back(); } }
        else { mc::trace("clear"); t.clear(); m.assign(1, ""); }
        if (mc::fresh()) { prefix_verify(t, m, W); }
        mc::H h; h(11)(depth - step); for (auto& w : m) h.str(w); if (mc::seen(h)) return;
    }
}
static void prefix_types() { std::vector<S> ws; for (int i = 0; i < 3; i++) ws.push_back(word(2, 1, 3)); container::prefix_tree<10> d; container::prefix_tree<26, int, uint8_t, std::vector<char>> v; mc::op(); for (auto& w : ws) { S x = w; for (char& c : x) c = c == 'a' ? '0' : '9'; d.add(x, d.ordinal_digit); std::vector<char> y; for (char c : w) y.push_back(c == 'a' ? 'A' : 'Z'); v.add(y, v.ordinal_upper_alpha); MC_CHECK(d.get(d.find(x, d.ordinal_digit), d.letter_digit) == x && v.get(v.find(y, v.ordinal_upper_alpha), v.letter_upper_alpha) == y, "other alphabets"); } std::set<S> u(ws.begin(), ws.end()); MC_CHECK(d.num_words() == (int)u.size() && v.num_words() == (int)u.size(), "other alphabets: word count"); mc::state(mc::H()(12).str(ws[0]).str(ws[1]).str(ws[2])); }
// ---- long texts
static S ltext(int kind, int n, int seed) { lg::Lcg g(kind * 1000 + seed + n); S s; auto morph = [&](const char* a, const char* b) { s = "a"; while ((int)s.size() < n) { S x; for (char c : s) x += c == 'a' ? a : b; s = x; } s.resize(n); };
    switch (kind) { case 0: s = S(n, 'a'); if (seed % 3) s[n * (seed % 3) / 3] = 'b'; break; case 1: for (int i = 0; i < n; i++) s += char('a' + g.below(2)); break; case 2: for (int i = 0; i < n; i++) s += char('a' + g.below(3)); break; case 3: morph("ab", "a"); break; case 4: morph("ab", "ba"); break;
    case 5: for (int i = 0; i < n; i++) s += char('a' + i % (5 + seed) % 3); s[n / 2] = 'c'; break; case 6: for (int i = 0; (int)s.size() < n; i++) { s += S(i, 'a'); s += 'b'; } s.resize(n); break; default: while ((int)s.size() < n) { if (s.size() < 4 || g.below(3) == 0) s += char('a' + g.below(3)); else if (g.below(2)) s += s.substr(g.below((int)s.size() - 1), 1 + g.below(40)); else { S t = s.substr(s.size() - std::min<size_t>(s.size(), 1 + g.below(40))); s += S(t.rbegin(), t.rend()); } } s.resize(n); }
    if (seed % 4 == 3) std::reverse(s.begin(), s.end()); return s; }
static void large_kmp() { static const int N[] = {100, 500, 1500}; int n = N[mc::choose(3)], kind = mc::choose(8), seed = mc::choose(mc::tier(4, 12)); S t = ltext(kind, n, seed); mc::state(mc::H()(20)(n)(kind)(seed)); mc::trace("text of %d letters, kind %d, member %d", n, kind, seed); lg::Lcg g(seed + kind); for (int q = 0; q < 40; q++) { int i = g.below(n), l = 1 + g.below(q % 3 == 0 ? n - i : std::min(n - i, 1 + q)); S p = t.substr(i, l); if (q % 5 == 4) p[g.below(l)] ^= 3; auto e = occ(t, p); for (int s = 0; s < 3; s++) { size_t stop = s == 0 ? e.size() + 1 : s == 1 ? 1 : std::max<size_t>(1, e.size() / 2); std::vector<size_t> r, w = e; if (w.size() > stop) w.resize(stop); size_t x = search::kmp_search(t.begin(), t.size(), p.begin(), p.size(), [&](size_t pos) { r.push_back(pos); return r.size() < stop; }); mc::op(); MC_CHECK(r == w && x == (w.empty() ? t.size() : w.back()), "kmp: %d occurrences of a pattern of %d letters, expected %d", (int)r.size(), l, (int)w.size()); } } }
static void large_aho() { static const int N[] = {20, 60, 120}; int n = N[mc::choose(3)], kind = mc::choose(8), seed = mc::choose(mc::tier(3, 10)); S t = ltext(kind, 600, seed); lg::Lcg g(n + kind + seed); std::vector<S> ws; for (int i = 0; i < n; i++) { int b = g.below(500), l = 1 + g.below(i % 4 ? 8 : 30); S w = t.substr(b, l); if (i % 7 == 6) w += char('a' + g.below(3)); ws.push_back(w); } mc::state(mc::H()(21)(n)(kind)(seed)); mc::trace("%d words, kind %d, member %d", n, kind, seed); container::aho_corasick_trie<> x; for (auto& w : ws) x.insert(w.begin(), w.end(), [](char c) { return c - 'a'; }); aho_check(x, ws, 3, {t, t.substr(100, 300) + t, ltext((kind + 3) % 8, 800, 1)}); }
static void large_suffix() { static const int N[] = {64, 257, 500, 900}; int n = N[mc::choose(mc::tier(3, 4))], kind = mc::choose(8), seed = mc::choose(mc::tier(4, 8)); S s = ltext(kind, n, seed); mc::state(mc::H()(22)(n)(kind)(seed)); mc::trace("suffix array of %d letters, kind %d, member %d", n, kind, seed); lg::Lcg g(seed * 10 + kind);
    container::suffix_array<> sa(s.begin(), s.end()); MC_CHECK((int)sa.size() == n, "size"); mc::op(); std::vector<std::vector<int>> lcp(n + 2, std::vector<int>(n + 2, 0)); for (int i = n - 1; i >= 0; i--) for (int j = n - 1; j >= 0; j--) lcp[i][j] = s[i] == s[j] ? lcp[i + 1][j + 1] + 1 : 0; auto less = [&](int a, int b) { if (a == b) return false; int l = lcp[a][b]; return a + l == n || (b + l != n && s[a + l] < s[b + l]); }; std::vector<int> o(n + 1); std::iota(o.begin(), o.end(), 0); std::sort(o.begin(), o.end(), less);
    for (int k = 0; k <= n; k++) MC_CHECK((int)sa.get_kth_suffix(k) == o[k] && (int)sa.get_suffix_order(o[k]) == k, "suffix %d is %d expected %d", k, (int)sa.get_kth_suffix(k), o[k]);
    for (int i = 0; i <= n; i++) for (int j = i % 3; j <= n; j += 3) MC_CHECK((int)sa.get_lcp(i, j) == lcp[i][j], "lcp(%d,%d) is %d expected %d", i, j, (int)sa.get_lcp(i, j), lcp[i][j]);
    for (int q = 0; q < 4000; q++) { int i = g.below(n + 1), j = g.below(n + 1), a = i + g.below(n - i + 1), b = j + g.below(n - j + 1); if (q % 2) { a = std::min(a, i + lcp[i][j] + g.below(3)); b = std::min(b, j + lcp[i][j] + g.below(3)); } int l = std::min(lcp[i][j], std::min(a - i, b - j)), e = i + l == a ? (j + l == b ? 0 : -1) : j + l == b ? 1 : s[i + l] < s[j + l] ? -1 : 1; MC_CHECK(sgn(sa.compare_substrings(i, a, j, b)) == e, "compare [%d,%d) with [%d,%d)", i, a, j, b); } }
static void large_pal() { static const int N[] = {60, 200, 400}; int n = N[mc::choose(3)], kind = mc::choose(8), seed = mc::choose(mc::tier(3, 8)); S s = ltext(kind, n, seed); mc::state(mc::H()(23)(n)(kind)(seed)); mc::trace("palindromes of %d letters, kind %d, member %d", n, kind, seed);
    std::vector<std::vector<char>> p(n + 1, std::vector<char>(n + 1, 0)); for (int l = 0; l <= n; l++) for (int i = 0; i + l <= n; i++) p[i][i + l] = l < 2 || (s[i] == s[i + l - 1] && p[i + 1][i + l - 1]); struct Q { int cnt, pos, depth, suf; }; std::map<S, Q> e; typedef container::palindrome_tree<> PT; PT t; int64_t total = 0;
    for (int i = 1; i <= n; i++) { int nw = 0, depth = 0, suf = 0; for (int l = 1; l <= i; l++) if (p[i - l][i]) { total++; depth++; S w = s.substr(i - l, l); auto it = e.find(w); if (it == e.end()) { nw++; e[w] = Q{1, i - l, depth, suf}; } else it->second.cnt++; suf = l; } int r = (int)t.add(s[i - 1], PT::ordinal_lower_alpha); mc::op(); MC_CHECK(r == nw, "adding letter %d reports %d new palindromes, expected %d", i, r, nw); MC_CHECK(t.total() == total && (size_t)t.distinct() == e.size() && (int)t[t.longest_suffix()].len == suf, "after letter %d: total %lld, expected %lld", i, (long long)t.total(), (long long)total); }
    t.propagate(); std::set<S> seen; for (int i = t.first(); i < (int)t.size(); i++) { auto& d = t[i]; S w = s.substr(d.pos, d.len); auto it = e.find(w); MC_CHECK(it != e.end() && seen.insert(w).second && d.cnt == it->second.cnt && d.pos == it->second.pos && d.depth == it->second.depth && (int)t[d.suff].len == it->second.suf, "node %d ([%d,+%d)): count %d", i, (int)d.pos, (int)d.len, (int)d.cnt); } MC_CHECK(seen.size() == e.size(), "nodes"); }
static void large_prefix() { int seed = mc::choose(mc::tier(24, 100)), kind = seed % 8, n = 150; S s = ltext(kind == 0 ? 2 : kind, 2000, seed / 8); typedef container::prefix_tree<3> P3; P3 t; std::vector<S> m{""}; lg::Lcg g(seed); auto o = P3::ordinal_lower_alpha; auto l = P3::letter_lower_alpha; mc::state(mc::H()(24)(seed)); mc::trace("prefix tree, history %d", seed); auto pos = [&](const S& w) { auto it = std::find(m.begin() + 1, m.end(), w); return it == m.end() ? 0 : int(it - m.begin()); }; auto add = [&](const S& w) { int k = pos(w); if (k || w.empty()) return k; m.push_back(w); return (int)m.size() - 1; }; auto rem = [&](int k) { if (k) { std::swap(m[k], m.back()); m.pop_back(); } };
    for (int i = 0; i < 3 * n; i++) { int kind2 = i < n ? g.below(4) / 3 : g.below(6); S w = s.substr(g.below(1900), 1 + g.below(i % 5 ? 6 : 40)); int id = g.below((int)m.size()); mc::op(); if (kind2 == 0) { int e = add(w), r = t.add(w, o); MC_CHECK(r == e, "add returns %d expected %d", r, e); } else if (kind2 == 1) { w.resize(std::min<size_t>(w.size(), 3)); int e = add(m[id] + w), r = t.append(id, w, o); MC_CHECK(r == e, "append returns %d expected %d", r, e); } else if (kind2 <= 3) { int r = t.erase(id); MC_CHECK(r == id, "erase returns %d", r); rem(id); } else if (kind2 == 4) { S x = i % 2 ? w : m[id]; int e = x.empty() ? 0 : pos(x), r = t.erase(x, o); MC_CHECK(r == e, "erase of a word returns %d expected %d", r, e); rem(e); } else MC_CHECK(t.find(w, o) == pos(w), "find");
        if (i % 50 == 49) { std::set<S> pre; for (auto& x : m) for (size_t k = 1; k <= x.size(); k++) pre.insert(x.substr(0, k)); MC_CHECK(t.num_words() == (int)m.size() - 1 && t.num_letters() == (int)pre.size(), "%d words %d letters, expected %d and %d", t.num_words(), t.num_letters(), (int)m.size() - 1, (int)pre.size()); for (size_t k = 0; k < m.size(); k++) { MC_CHECK(t.get((int)k, l) == m[k], "word %d", (int)k); if (k) MC_CHECK(t.find(m[k], o) == (int)k, "find of word %d", (int)k); } for (int q = 0; q < 4; q++) { int b = q ? g.below((int)m.size()) : 0; std::vector<std::pair<S, int>> e, r; for (size_t j = 1; j < m.size(); j++) if (m[j].compare(0, m[b].size(), m[b]) == 0) e.push_back({m[j], (int)j}); std::sort(e.begin(), e.end()); t.for_each(b, [&](const S& x, int k) { r.push_back({x, k}); }, l); MC_CHECK(r == e, "iteration from word %d", b); } } } }
MC_SETUP(all) {
    mc::add("large_kmp", large_kmp, 8); mc::add("large_aho", large_aho, 8); mc::add("large_suffix", large_suffix, 8); mc::add("large_pal", large_pal, 8); mc::add("large_prefix", large_prefix, 8);
    mc::add("kmp_2", [] { kmp(2, mc::tier(11, 13), 6); }, 8); mc::add("kmp_3", [] { kmp(3, mc::tier(7, 8), 4); }, 8); mc::add("kmp_periodic", kmp_periodic, 8);
    mc::add("aho_2", [] { aho(2, mc::tier(3, 4), 3, 7); }, 4); mc::add("aho_3", [] { aho(3, 2, 3, 4); }, 3); mc::add("aho_long", aho_long, 5);
    mc::add("suffix_2", [] { suffix(2, mc::tier(13, 15)); }, 12); mc::add("suffix_3", [] { suffix(3, mc::tier(8, 9)); }, 8); mc::add("suffix_4", [] { suffix(4, mc::tier(6, 7)); }, 6); mc::add("suffix_periodic", suffix_periodic, 8); mc::add("suffix_morphic", suffix_morphic, 5); mc::add("suffix_perm", suffix_perm, 6);
    mc::add("pal_2", [] { pal(2, mc::tier(12, 13)); }, 11); mc::add("pal_3", [] { pal(3, mc::tier(7, 8)); }, 8); mc::add("pal_periodic", pal_periodic, 8);
    mc::add("prefix", prefix, 5); mc::add("prefix_types", prefix_types);
    mc::add("suffix_empty", [] { std::vector<int> v; container::suffix_array<int> sa(v.begin(), v.end()); suffix_check(sa, v, true); });
}
// letter <-> ordinal helpers are inverse to each other and count from the first letter
MC_SCENARIO(letters, 1) { int i = mc::choose(26); mc::state(mc::hash(16, i)); mc::op(); typedef container::palindrome_tree<> P; typedef container::prefix_tree<26> X;
    MC_CHECK((int)P::ordinal_lower_alpha(char('a' + i)) == i && (int)P::ordinal_upper_alpha(char('A' + i)) == i && (int)X::ordinal_lower_alpha(char('a' + i)) == i && (int)X::ordinal_upper_alpha(char('A' + i)) == i && X::letter_lower_alpha(i) == 'a' + i && X::letter_upper_alpha(i) == 'A' + i, "letter %d", i);
    if (i < 10) MC_CHECK((int)P::ordinal_digit(char('0' + i)) == i && (int)X::ordinal_digit(char('0' + i)) == i && X::letter_digit(i) == '0' + i, "digit %d", i); }
