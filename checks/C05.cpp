// C05 bit vector against std::vector<int>.
// MC_BOUNDS: 8-bit words: every bit pattern up to 9 (quick) / 11 (thorough) bits and structured patterns (every single 1, single 0, every run) at every size up to 28 / 36, each with every range / shift / rotation / range pair of every operation; 16/32/64-bit words: structured patterns around word boundaries; vectors of 4 to 6 words of every width, every operation between cut points at and one bit around each half and whole word; braced lists; histories of 4 / 5 mixed editing operations on two vectors of sizes around one and two words with visited-state merging on the raw words
#include "mc.h"
#include "altruct/structure/container/bit_vector.h"
#include <algorithm>
#include <list>
#include <type_traits>
using altruct::container::bit_vector;
typedef std::vector<int> M;
template <class W> static bit_vector<W> mk(const M& m) { return bit_vector<W>(m.begin(), m.end()); }
template <class W> static std::string bits(const bit_vector<W>& v) { std::string s; for (size_t i = 0; i < v.size(); i++) s += char('0' + v.bit_at(i)); return s; }
static std::string bits(const M& m) { std::string s; for (int x : m) s += char('0' + x); return s; }
// full observation: size, bits, equality with a freshly built vector, and growth exposes only zeros
template <class W> static void same(const bit_vector<W>& v, const M& m, const char* what, int a = 0, int b = 0, int c = 0, int d = 0) {
    if (v.size() != m.size()) mc::fail("%s(%d,%d,%d,%d): size %d, expected %d", what, a, b, c, d, (int)v.size(), (int)m.size());
    for (size_t i = 0; i < m.size(); i++) if (v.bit_at(i) != m[i]) mc::fail("%s(%d,%d,%d,%d): bits %s, expected %s", what, a, b, c, d, bits(v).c_str(), bits(m).c_str());
    mc::op();
}
template <class W> static void same_deep(const bit_vector<W>& v, const M& m, const char* what, int a = 0, int b = 0, int c = 0, int d = 0) {
    same(v, m, what, a, b, c, d);
    bit_vector<W> f(m.begin(), m.end()), g(v);
    if (!(v == f) || v != f || v < f || v > f || !(v <= f) || !(v >= f)) mc::fail("%s(%d,%d,%d,%d): not equal to a vector with the same bits %s", what, a, b, c, d, bits(m).c_str());
    if (v.to_string(0, m.size()) != bits(m)) mc::fail("%s(%d,%d,%d,%d): to_string %s, expected %s", what, a, b, c, d, v.to_string(0, m.size()).c_str(), bits(m).c_str());
    const int L = bit_vector<W>::L; M e(m); e.resize(m.size() + L + 3, 0);
    g.resize(e.size()); same(g, e, "growth after", a, b, c, d);
    bit_vector<W> h(v); h.push_back(0); M e2(m); e2.push_back(0); same(h, e2, "push_back(0) after", a, b, c, d); h.resize(m.size()); same(h, m, "shrinking after", a, b, c, d);
}
template <class W> static void ranges1(const M& m, const std::vector<int>& cuts, const std::vector<int>& counts);
template <class W> static void unary(const M& m, bool ranges) {
    typedef bit_vector<W> B; const int L = B::L; int n = (int)m.size();
    B v = mk<W>(m); same_deep(v, m, "range constructor");
    { B z(n); same_deep(z, M(n, 0), "sized constructor"); std::list<char> l(m.begin(), m.end()); B w(l.begin(), l.end()); same_deep(w, m, "list constructor"); same_deep(v.clone(), m, "clone"); }
    { M x(m); for (int& b : x) b ^= 1; same_deep(~v, x, "~"); same(v, m, "operand of ~"); }
    for (int s = 0; s <= n + 2 * L; s++) {
        M x(n), y(n); for (int i = 0; i < n; i++) { x[i] = i + s < n ? m[i + s] : 0; y[i] = i - s >= 0 ? m[i - s] : 0; }
        same_deep(v >> s, x, ">>", s); same_deep(v << s, y, "<<", s); same(v, m, "shift operand", s);
    }
    for (int i = 0; i < n; i++) {
        for (int val = -1; val <= 1; val++) { B w(v); w.set(i, val); M x(m); x[i] = val < 0 ? !x[i] : val; same(w, x, "set", i, val); }
        for (int val = 0; val <= 1; val++) {
            B w(v); M x(m); w[i] = val; x[i] = val; same(w, x, "proxy =", i, val);
            w = v; x = m; w[i] ^= val; x[i] ^= val; same(w, x, "proxy ^=", i, val);
            w = v; x = m; w[i] |= val; x[i] |= val; same(w, x, "proxy |=", i, val);
            w = v; x = m; w[i] &= val; x[i] &= val; same(w, x, "proxy &=", i, val);
        }
        { B w(v); M x(m); int j = (i * 5 + 3) % n; w[i] = w[j]; x[i] = x[j]; same(w, x, "proxy = proxy", i, j); MC_CHECK((int)w[i] == x[i], "proxy read"); }
        W word = v.word_at(i); for (int k = 0; k < L; k++) if ((int)((word >> k) & 1) != (i + k < n ? m[i + k] : 0)) mc::fail("word_at(%d) bit %d", i, k);
    }
    for (int ns = 0; ns <= n + L + 2; ns += (ns < n - 2 || ns > n + 2) ? 3 : 1) { B w(v); M x(m); x.resize(ns, 0); w.resize(ns); same_deep(w, x, "resize", ns); B r(v); r.reserve(ns); M y(m); if (ns > n) y.resize(ns, 0); same_deep(r, y, "reserve", ns); }
    if (n) { B w(v); w.pop_back(); M x(m); x.pop_back(); same_deep(w, x, "pop_back"); }
    if (!ranges) return;
    std::vector<int> all(n + 1); for (int i = 0; i <= n; i++) all[i] = i;
    ranges1<W>(m, all, all);
}
// every operation on a single range, for all ranges between the given cut points
template <class W> static void ranges1(const M& m, const std::vector<int>& cuts, const std::vector<int>& counts) {
    typedef bit_vector<W> B; B v = mk<W>(m);
    for (int b : cuts) for (int e : cuts) if (b <= e) {
        MC_CHECK(v.to_string(b, e) == bits(M(m.begin() + b, m.begin() + e)), "to_string(%d,%d) of %s", b, e, bits(m).c_str());
        { M x(m); std::reverse(x.begin() + b, x.begin() + e); B w(v); same(w.reverse(b, e), x, "reverse", b, e); }
        { M x0(m), x1(m), xf(m); for (int i = b; i < e; i++) x0[i] = 0, x1[i] = 1, xf[i] ^= 1;
          B w(v); same(w.apply(b, e, B::op_set0), x0, "set0", b, e); w = v; same(w.apply(b, e, B::op_set1), x1, "set1", b, e); w = v; same(w.apply(b, e, B::op_flip), xf, "flip", b, e); w = v; same(w.apply(b, e, B::op_nop, true), m, "nop", b, e); }
        for (int c : counts) if (c <= e - b + 1) { M x(m), y(m);
          if (b < e) { std::rotate(x.begin() + b, x.begin() + b + c % (e - b), x.begin() + e); std::rotate(y.begin() + b, y.begin() + (e - c % (e - b)), y.begin() + e); }
          B w(v); same(w.rotate_left(b, e, c), x, "rotate_left", b, e, c); w = v; same(w.rotate_right(b, e, c), y, "rotate_right", b, e, c); }
        { std::string s; size_t exp = 0; v.scan(b, e, [&](W w, size_t pos, int l) { MC_CHECK(l == 0 || pos == exp, "scan position"); exp += l; for (int k = 0; k < l; k++) s += char('0' + ((w >> k) & 1)); return true; }); MC_CHECK(s == bits(M(m.begin() + b, m.begin() + e)), "scan [%d,%d) of %s: %s", b, e, bits(m).c_str(), s.c_str()); }
    }
}
// operations on two ranges; that == this is allowed
template <class W> static void binary(const M& m1, const M& m2) {
    typedef bit_vector<W> B; int n1 = (int)m1.size(), n2 = (int)m2.size(); B v1 = mk<W>(m1), v2 = mk<W>(m2);
    int n = std::max(n1, n2); M a(n), o(n), x(n);
    for (int i = 0; i < n; i++) { int p = i < n1 ? m1[i] : 0, q = i < n2 ? m2[i] : 0; a[i] = p & q; o[i] = p | q; x[i] = p ^ q; }
    same_deep(v1 & v2, a, "&", n1, n2); same_deep(v1 | v2, o, "|", n1, n2); same_deep(v1 ^ v2, x, "^", n1, n2);
    int c = m1 == m2 ? 0 : std::lexicographical_compare(m1.begin(), m1.end(), m2.begin(), m2.end()) ? -1 : 1;
    MC_CHECK((v1 == v2) == (c == 0) && (v1 != v2) == (c != 0) && (v1 < v2) == (c < 0) && (v1 > v2) == (c > 0) && (v1 <= v2) == (c <= 0) && (v1 >= v2) == (c >= 0), "comparison of %s and %s", bits(m1).c_str(), bits(m2).c_str());
    same(v1, m1, "left operand"); same(v2, m2, "right operand");
}
template <class W> static void ranges2(const M& m1, const M& m2, bool self, const std::vector<int>* cuts = nullptr) {
    std::vector<int> all(std::max(m1.size(), m2.size()) + 1); for (int i = 0; i < (int)all.size(); i++) all[i] = i; if (!cuts) cuts = &all;
    typedef bit_vector<W> B; int n1 = (int)m1.size(), n2 = (int)m2.size(); B v1 = mk<W>(m1), v2 = mk<W>(m2); const B& src = self ? v1 : v2;
    typedef W (*OP)(W, W, int); static const OP ops[] = {B::op_set, B::op_setn, B::op_and, B::op_or, B::op_xor, B::op_nand, B::op_nor, B::op_eq};
    static const char* nm[] = {"set", "setn", "and", "or", "xor", "nand", "nor", "eq"};
    for (int b1 : *cuts) for (int b2 : *cuts) for (int len : *cuts) if (b1 + len <= n1 && b2 + len <= (self ? n1 : n2)) {
        const M& s = self ? m1 : m2; int ham = 0; for (int i = 0; i < len; i++) ham += m1[b1 + i] != s[b2 + i];
        MC_CHECK((int)B::hamming_distance(v1, b1, src, b2, len) == ham, "hamming(%d,%d,%d) of %s and %s", b1, b2, len, bits(m1).c_str(), bits(s).c_str());
        M r1(m1.begin() + b1, m1.begin() + b1 + len), r2(s.begin() + b2, s.begin() + b2 + len);
        int c = r1 == r2 ? 0 : r1 < r2 ? -1 : 1; MC_CHECK(B::compare(v1, b1, b1 + len, src, b2, b2 + len) == c, "compare(%d,%d,%d) of %s and %s", b1, b2, len, bits(m1).c_str(), bits(s).c_str());
        if (len) { M r3(r2.begin(), r2.end() - 1); MC_CHECK(B::compare(v1, b1, b1 + len, src, b2, b2 + len - 1) == (r1 == r3 ? 0 : r1 < r3 ? -1 : 1), "compare unequal lengths(%d,%d,%d) of %s and %s", b1, b2, len, bits(m1).c_str(), bits(s).c_str()); }
        for (int k = 0; k < 8; k++) {
            M x(m1); for (int i = 0; i < len; i++) { int p = m1[b1 + i], q = s[b2 + i]; x[b1 + i] = k == 0 ? q : k == 1 ? !q : k == 2 ? p & q : k == 3 ? p | q : k == 4 ? p ^ q : k == 5 ? !(p & q) : k == 6 ? !(p | q) : p == q; }
            B w(v1); same(B::apply(w, b1, self ? w : v2, b2, len, ops[k]), x, nm[k], b1, b2, len, self);
        }
        mc::op();
    }
}
template <class W> static void swaps(const M& m, std::vector<int> cuts = std::vector<int>()) {
    int n = (int)m.size(); bit_vector<W> v = mk<W>(m); if (cuts.empty()) for (int i = 0; i <= n; i++) cuts.push_back(i);
    for (int b1 : cuts) for (int e1 : cuts) if (b1 <= e1) for (int b2 : cuts) if (e1 <= b2) for (int e2 : cuts) if (b2 <= e2) {
        M x(m.begin(), m.begin() + b1); x.insert(x.end(), m.begin() + b2, m.begin() + e2); x.insert(x.end(), m.begin() + e1, m.begin() + b2); x.insert(x.end(), m.begin() + b1, m.begin() + e1); x.insert(x.end(), m.begin() + e2, m.end());
        bit_vector<W> w(v); same(w.swap(b1, e1, b2, e2), x, "swap", b1, e1, b2, e2); if (b1 < b2) { w = v; same(w.swap(b2, e2, b1, e1), x, "swap (reversed arguments)", b2, e2, b1, e1); }
    }
}
static M sparse(int n) { // structured, run ends only next to word and vector boundaries
    M m(n, 0); int kind = mc::choose(3);
    if (kind == 2) { for (int i = 0; i < n; i++) m[i] = (0xB3A5C6E1u >> (i * 7 % 32)) & 1; return m; }
    std::vector<int> c; for (int p : {0, 1, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, n - 2, n - 1}) if (p >= 0 && p < n && std::find(c.begin(), c.end(), p) == c.end()) c.push_back(p);
    int i = n ? c[mc::choose((int)c.size())] : 0, j = n ? i + 1 + mc::choose(2) * (n - i - 1) : 0; for (int k = i; k < j; k++) m[k] = 1; if (kind == 1) for (int& b : m) b ^= 1; return m;
}
static M pattern(int n) { // structured: a run [i,j) of ones (or zeros), or an irregular word
    M m(n, 0); int kind = mc::choose(3);
    if (kind == 2) { for (int i = 0; i < n; i++) m[i] = (0xB3A5C6E1u >> (i * 7 % 32)) & 1; return m; }
    int i = n ? mc::choose(n) : 0, j = n ? i + 1 + mc::choose(2) * (n - i - 1) : 0; for (int k = i; k < j; k++) m[k] = 1; if (kind == 1) for (int& b : m) b ^= 1; return m;
}
template <class W> static void st(const M& a, const M& b = M()) { mc::state(mc::H()(sizeof(W)).range(a).range(b)); }
template <class W> static void reg_sizes(const char* w, std::vector<int> sizes) {
    for (int n : sizes) mc::add(std::string(w) + "_unary_" + std::to_string(n), [n] { M m = pattern(n); st<W>(m); unary<W>(m, n <= 40); });
    for (int n : sizes) mc::add(std::string(w) + "_binary_" + std::to_string(n), [n, sizes] { auto gen = [](int x) { return x <= 12 || mc::thorough() ? pattern(x) : sparse(x); }; M m = gen(n), k = gen(sizes[mc::choose((int)sizes.size())]); if (n && mc::choose(2)) k.assign(m.begin(), m.begin() + mc::choose(2) * (n - 1)); st<W>(m, k); binary<W>(m, k); });
}
template <class W> static void history(int n0) {
    typedef bit_vector<W> B; B v[2] = {B(n0), B(0)}; M m[2] = {M(n0, 0), M()};
    int depth = mc::tier(4, 5);
    for (int i = 0;; i++) {
        if (mc::fresh()) { same_deep(v[0], m[0], "history"); same_deep(v[1], m[1], "history"); binary<W>(m[0], m[1]); MC_CHECK((v[0] == v[1]) == (m[0] == m[1]) && (v[0] < v[1]) == (m[0] < m[1]), "history comparison"); }
        mc::H k; k(depth - i); for (int q = 0; q < 2; q++) k.range(v[q].words).range(m[q])(v[q].sz);
        mc::state(k); if (i == depth || mc::seen(k)) return;
        int q = mc::choose(2), o = mc::choose(15), n = (int)m[q].size(); B& x = v[q]; M& a = m[q]; B& y = v[1 - q]; M& b = m[1 - q];
        mc::trace("vector %d op %d (size %d)", q, o, n);
        auto widen = [&] { if (a.size() < b.size()) a.resize(b.size(), 0); };
        auto bb = [&](size_t j) { return j < b.size() ? b[j] : 0; };
        switch (o) {
        case 0: x.push_back(1); a.push_back(1); break;
        case 1: if (!n) return; x.pop_back(); a.pop_back(); break;
        case 2: { int ns = n / 2 + 1; x.resize(ns); a.resize(ns, 0); break; }
        case 3: { int ns = n + B::L; if (ns > 3 * B::L) return; x.resize(ns); a.resize(ns, 0); break; }
        case 4: x.apply(0, n, B::op_flip); for (int& c : a) c ^= 1; break;
        case 5: { int s = mc::choose(2) ? 3 : n / 2 + 1; x <<= s; M z(n, 0); for (int j = s; j < n; j++) z[j] = a[j - s]; a = z; break; }
        case 6: { int s = mc::choose(2) ? 1 : n / 2; x >>= s; M z(n, 0); for (int j = 0; j + s < n; j++) z[j] = a[j + s]; a = z; break; }
        case 7: x |= y; widen(); for (size_t j = 0; j < a.size(); j++) a[j] |= bb(j); break;
        case 8: x &= y; widen(); for (size_t j = 0; j < a.size(); j++) a[j] &= bb(j); break;
        case 9: x ^= y; widen(); for (size_t j = 0; j < a.size(); j++) a[j] ^= bb(j); break;
        case 10: x = y; a = b; break;
        case 11: x.reverse(n / 3, n); std::reverse(a.begin() + n / 3, a.end()); break;
        case 12: if (!n) return; x[n - 1] = 1; a[n - 1] = 1; break;
        case 13: { size_t l = std::min(a.size(), b.size()); if (l < 2) return; B::apply(x, 1, y, 0, l - 1, B::op_set); std::copy(b.begin(), b.begin() + l - 1, a.begin() + 1); break; }
        case 14: if (n < 2) return; B::apply(x, 0, x, 1, n - 1, B::op_xor); { M z(a); for (int j = 0; j + 1 < n; j++) z[j] = a[j] ^ a[j + 1]; a = z; } break;
        }
        mc::op();
    }
}
// vectors of several words: an irregular pattern (or its complement), cut at every half and whole word and one bit next to those
template <class W> static void long_vector(int n) {
    const int L = sizeof(W) * 8; int kind = mc::choose(2), what = mc::choose(5); M m(n); for (int i = 0; i < n; i++) m[i] = (0x9E3779B97F4A7C15ull * (i + 5) >> 40 & 1) ^ kind; mc::state(mc::hash(n, L, kind, what));
    std::vector<int> fine, coarse; for (int p = 0; p <= n; p += L / 2) { coarse.push_back(p); for (int d = -1; d <= 1; d++) if (p + d >= 0 && p + d <= n) fine.push_back(p + d); } if (fine.back() != n) fine.push_back(n);
    if (what == 0) ranges1<W>(m, fine, fine); else if (what == 1) swaps<W>(m, coarse); else if (what == 2) { if (!kind || mc::thorough()) unary<W>(m, false); }
    else { M k(m); if (what == 4) for (int i = 0; i < n; i++) k[i] = (i * i + 3 * i) % 7 < 3; ranges2<W>(m, k, what == 3, &fine); } }
template <class W> static void lists(const char* w) { mc::add(std::string(w) + "_lists", [] { mc::state(mc::hash(sizeof(W))); typedef bit_vector<W> B; // braced lists
    same_deep(B({0, 1, 1, 0, 1}), M{0, 1, 1, 0, 1}, "list of int"); same_deep(B({true}), M{1}, "list of bool"); same_deep(B({2, 3, -1, 4}), M{0, 1, 1, 0}, "list of low bits");
    same_deep(B({1,1,0,1,0,0,1,1, 0,1,1,1,0,1,0,1, 1}), M{1,1,0,1,0,0,1,1, 0,1,1,1,0,1,0,1, 1}, "long list"); }); }
MC_SETUP(all) {
    lists<uint8_t>("u8"); lists<uint16_t>("u16"); lists<uint32_t>("u32"); lists<uint64_t>("u64");
    for (int n : {32, 37, 40, 44, 48}) mc::add("u8_long_" + std::to_string(n), [n] { long_vector<uint8_t>(n); }, 3); for (int n : {64, 72, 80, 81}) mc::add("u16_long_" + std::to_string(n), [n] { long_vector<uint16_t>(n); }, 3);
    for (int n : {112, 128, 160}) mc::add("u32_long_" + std::to_string(n), [n] { long_vector<uint32_t>(n); }, 3); for (int n : {224, 256, 320}) mc::add("u64_long_" + std::to_string(n), [n] { long_vector<uint64_t>(n); }, 3);
    for (int n = 0; n <= mc::tier(9, 11); n++) {
        mc::add("u8_all_patterns_" + std::to_string(n), [n] { M m(n); for (int& b : m) b = mc::choose(2); st<uint8_t>(m); unary<uint8_t>(m, true); swaps<uint8_t>(m); ranges2<uint8_t>(m, m, true); }, n > 7 ? 4 : 1);
    }
    for (int n = 0; n <= mc::tier(6, 8); n++) mc::add("u8_all_pairs_" + std::to_string(n), [n] { M m(n), k(mc::choose(mc::tier(7, 9))); for (int& b : m) b = mc::choose(2); for (int& b : k) b = mc::choose(2); st<uint8_t>(m, k); binary<uint8_t>(m, k); }, n > 4 ? 6 : 1);
    std::vector<int> s8; for (int n = 10; n <= mc::tier(28, 36); n++) s8.push_back(n);
    reg_sizes<uint8_t>("u8", s8);
    for (int n : {10, 15, 16, 17, 18, 24, 25}) mc::add("u8_ranges_" + std::to_string(n), [n] { M m = sparse(n); int self = mc::choose(2); M k = self ? m : sparse(mc::choose(2) ? 13 : 16); st<uint8_t>(m, k); if (!mc::thorough() && !self && (n != 16 && n != 10)) return; ranges2<uint8_t>(m, k, self); }, 6);
    for (int n : {15, 16, 17, 23, 24}) if (n < 17 || mc::thorough()) mc::add("u8_swaps_" + std::to_string(n), [n] { M m = pattern(n); st<uint8_t>(m); swaps<uint8_t>(m); }, 3);
    reg_sizes<uint16_t>("u16", {0, 1, 15, 16, 17, 31, 32, 33, 40});
    reg_sizes<uint32_t>("u32", {0, 1, 31, 32, 33, 40, 63, 64, 65});
    reg_sizes<uint64_t>("u64", {0, 1, 40, 63, 64, 65, 127, 128, 129});
    for (int n : {62, 63, 64, 65, 66, 127, 129, 130}) if (n < 67 || mc::thorough()) mc::add("u64_ranges_" + std::to_string(n), [n] { // every range of an irregular pattern
        M m(n); for (int i = 0; i < n; i++) m[i] = (0x9E3779B97F4A7C15ull * (i + 5) >> 40) & 1; int part = mc::choose(2); st<uint64_t>(m); mc::state(mc::hash(n, part));
        if (part) { if (n <= 66 && !mc::thorough() && n != 65) return; unary<uint64_t>(m, true); } else ranges2<uint64_t>(m, m, true); }, 2);
    for (int n : {0, 5, 7, 8, 9, 16}) mc::add("u8_history_" + std::to_string(n), [n] { history<uint8_t>(n); }, 30);
    for (int n : {31, 32, 63, 64}) mc::add("u64_history_" + std::to_string(n), [n] { if (n < 40) history<uint32_t>(n); else history<uint64_t>(n); }, 30);
}
