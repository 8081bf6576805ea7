// C23 writers: every sequence of writes, flushes and raw buffer uses on every writer against the concatenation; every number against its decimal value; stream output of containers and math types.
// MC_BOUNDS: string, stream, file and buffered/simple writers (over each sink, stacked) and fast writer; buffer capacities 1..4 and roomy; every sequence of up to 4 (quick) / 5 (thorough) writes out of characters (0, 'a', 0xff), blocks of 1..3 and more bytes than the buffer, C strings, strings with NUL, numbers, flush, reserve, raw data + advance; every 16-bit integer and the boundary integers of 32/64-bit types with minimal widths 1..5; floating values k/1000 for k < 20000, and a grid of mantissas (including every near-carry form) x exponents -300..300 x precisions 0..15 x fixed/scientific
// MC_ASSUME: a printed floating value may differ from the exactly rounded one by a few ulp of the value (double arithmetic); a negative zero may be printed with or without sign; the raw buffer is advanced only after a terminated string was put there
#include "mc.h"
#include <string.h>
#include <stdint.h>
#include <array>
#include "altruct/io/writer.h"
#include "altruct/io/fast_io.h"
#include "altruct/io/iostream_overloads.h"
#include "io_sources.h"
#include <sstream>
#include <memory>
#include <limits>
#include <math.h>
using namespace altruct::io;
static std::string hex(const std::string& s) { std::string r; char b[8]; for (unsigned char c : s) { snprintf(b, sizeof b, c >= 33 && c < 127 ? "%c" : "\\x%02x", c); r += b; } return r; }
static bool is_prefix(const std::string& a, const std::string& b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }
// one write operation on any writer; `cap` is the buffer capacity (0: not buffered)
template<class W, class S> static void ops(W& w, S sink, int cap, int depth, const char* who, bool raw) {
    std::string want; static const char nul[] = "x\0y";
    for (int i = 0; i < depth; i++) {
        int o = mc::choose(13); mc::op();
        if (o == 0) break;
        else if (o == 1) { w.write_char('a'); want += 'a'; } else if (o == 2) { w.write_char(0); want += '\0'; } else if (o == 3) { w.write_char((unsigned char)0xff); want += '\xff'; }
        else if (o == 4) { w.write_string("pq"); want += "pq"; } else if (o == 5) { w.write_string(std::string(nul, 3)); want += std::string(nul, 3); } else if (o == 6) { std::string s(cap + 2, 'k'); for (int j = 0; j < cap + 2; j++) s[j] = 'k' + j % 7; w.write_string(s); want += s; }
        else if (o == 7) { w.write_int(-10); want += "-10"; } else if (o == 8) { w.write_ll(1234567890123LL); want += "1234567890123"; }
        else if (o == 9) { w.flush(); MC_CHECK(sink() == want, "%s with capacity %d: after a flush the sink has %s, written %s", who, cap, hex(sink()).c_str(), hex(want).c_str()); MC_CHECK((int)w.available() == cap, "%s: %d bytes available after a flush, capacity %d", who, (int)w.available(), cap); }
        else if (o == 10) { size_t k = w.reserve(2); MC_CHECK((int)k >= std::min(2, cap) && (int)k <= cap && k == w.available(), "%s: reserve(2) returns %d, available %d, capacity %d", who, (int)k, (int)w.available(), cap); }
        else if (o == 11) { int n = 1 + mc::choose(3); char* p = w.data(n); MC_CHECK(!p == (n > cap), "%s: data(%d) is %s with capacity %d", who, n, p ? "granted" : "refused", cap); if (p) { MC_CHECK((int)w.available() >= n, "%s: data(%d) with %d available", who, n, (int)w.available()); int len = mc::choose(n + 1); std::string s = std::string("uvw").substr(0, len); snprintf(p, n + 1, "%s", s.c_str()); w.advance(); want += s; } }
        else { w.write_float(0.5f, 2); want += "0.50"; }
        MC_CHECK(is_prefix(sink(), want), "%s with capacity %d: the sink has %s, written %s", who, cap, hex(sink()).c_str(), hex(want).c_str()); mc::state(mc::H().str(who)(cap).str(want).str(sink()));
    }
    w.flush(); MC_CHECK(sink() == want, "%s with capacity %d: output %s, written %s", who, cap, hex(sink()).c_str(), hex(want).c_str());
    w.write_char('!'); // delivered when the writer goes away
}
static void closed(const std::string& s, const char* who) { MC_CHECK(!s.empty() && s.back() == '!', "%s: the last character is lost when the writer is destroyed", who); }
static void buffered(int cap, int depth) {
    int k = mc::choose(5); mc::trace("sink %d, capacity %d", k, cap);
    if (k == 0) { std::vector<char> v(2000); memset(v.data(), 0x7e, 2000); string_writer q(v.data(), 2000); auto sink = [&] { size_t n = 2000; while (n && v[n - 1] == '~') n--; return std::string(v.data(), n); }; { simple_writer w(q, cap); ops(w, sink, cap, depth, "simple_writer(string)", true); } closed(sink(), "simple_writer(string)"); }
    else if (k == 1) { std::ostringstream os; { stream_writer q(os); simple_writer w(q, cap); ops(w, [&] { return os.str(); }, cap, depth, "simple_writer(stream)", true); } closed(os.str(), "simple_writer(stream)"); }
    else if (k == 2) { File f("", 0, false, "w"); { file_writer q(f.f); simple_writer w(q, cap); ops(w, [&] { return f.k.sink; }, cap, depth, "simple_writer(file)", true); } closed(f.k.sink, "simple_writer(file)"); }
    else if (k == 3) { File f("", 0, false, "w"); { fast_write w(f.f, cap); ops(w, [&] { return f.k.sink; }, cap, depth, "fast_write", true); } closed(f.k.sink, "fast_write"); }
    else { std::ostringstream os; { stream_writer q(os); buffered_writer b(q, cap % 3 + 1); simple_writer w(b, cap); ops(w, [&] { return os.str(); }, cap, depth, "simple_writer(buffered)", true); } closed(os.str(), "simple_writer(buffered)"); }
}
// unbuffered writers and the buffered writer through the writer interface, including block writes and a truncating array
static void plain(int depth) {
    int k = mc::choose(6), lim = mc::choose(8); if (k != 0 && lim) return; std::string want; std::vector<char> v(lim + 8, '~'); std::ostringstream os; File f("", 0, false, "w");
    std::unique_ptr<char[]> heap(new char[lim]); std::unique_ptr<writer> w, u;
    if (k == 0) w.reset(new string_writer(heap.get(), lim)); else if (k == 1) w.reset(new stream_writer(os)); else if (k == 2) w.reset(new file_writer(f.f)); else if (k == 3) { u.reset(new stream_writer(os)); w.reset(new buffered_writer(*u, 1)); } else if (k == 4) { u.reset(new file_writer(f.f)); w.reset(new buffered_writer(*u, 3)); } else { u.reset(new stream_writer(os)); w.reset(new buffered_writer(*u, 2)); }
    for (int i = 0; i < depth; i++) { int o = mc::choose(8); mc::op(); if (o == 0) break; if (o == 1) { w->write_char('a'); want += 'a'; } else if (o == 2) { w->write_char(0xff); want += '\xff'; } else if (o <= 6) { std::string s = std::string("b\0c\xff" "de", 6).substr(0, o == 6 ? 6 : o - 3); w->write(s.data(), s.size()); want += s; } else w->flush(); }
    w->flush(); u.reset(k >= 3 ? u.release() : nullptr); std::string got = k == 0 ? std::string(heap.get(), std::min((size_t)lim, want.size())) : k == 2 || k == 4 ? f.k.sink : os.str(), exp = k == 0 ? want.substr(0, lim) : want;
    mc::state(mc::H()(k)(lim).str(want)); MC_CHECK(got == exp, "writer %d (limit %d): output %s, written %s", k, lim, hex(got).c_str(), hex(exp).c_str()); w.reset();
}
// ---- numbers
template<class F> static std::string by_simple(int cap, F f) { std::ostringstream os; { stream_writer q(os); simple_writer w(q, cap); f(w); } return os.str(); }
template<class F> static std::string by_fast(int cap, F f) { File q("", 0, false, "w"); { fast_write w(q.f, cap); f(w); } return q.k.sink; }
template<class T> static std::string padded(T v, int len) { std::string s = std::to_string(v), sg; if (s[0] == '-') { sg = "-"; s = s.substr(1); } while ((int)s.size() < len) s = "0" + s; return sg + s; }
template<class T> static void integer(T v, int len) {
    std::string want = padded(v, len), a = by_simple(64, [&](simple_writer& w) { w.write_integral_number<T>(v, len); }), b = by_fast(64, [&](fast_write& w) { w.write_integral_number<T>(v, len); });
    mc::op(); MC_CHECK(a == want, "simple_writer prints %s with width %d as %s", std::to_string(v).c_str(), len, a.c_str()); MC_CHECK(b == want, "fast_write prints %s with width %d as %s", std::to_string(v).c_str(), len, b.c_str());
}
static void int16() { int hi = mc::choose(256); mc::state(hi); int len = 1 + mc::choose(2) * 3; for (int lo = 0; lo < 256; lo++) integer<int16_t>((int16_t)(hi << 8 | lo), len); for (int lo = 0; lo < 256; lo++) integer<uint16_t>((uint16_t)(hi << 8 | lo), 1); }
template<class T> static void bounds() {
    typedef std::numeric_limits<T> L; T mx = L::max(), mn = L::min(); std::vector<T> v; for (int i = 0; i < 12; i++) { v.push_back(mx - i); v.push_back(mn + i); v.push_back(i); v.push_back(mx / 10 + i); v.push_back(mn / 10 + i); } T t = 1; while (true) { for (int d = -1; d <= 1; d++) { v.push_back(t + d); if (std::is_signed<T>::value) v.push_back(-t + d); } if (t > mx / 10) break; t *= 10; }
    T x = v[mc::choose((int)v.size())]; mc::state(mc::H()((unsigned long long)x)(sizeof(T))); for (int len : {1, 2, 3, 5, 20, 25}) integer<T>(x, len);
}
static void streams() { // the streaming interface and default forms
    mc::op(); mc::state(1); std::string want = "x-5 " + std::to_string(LLONG_MIN) + std::to_string(LONG_MAX) + "0.500000-1.250000" + std::string("a\0b", 3);
    for (int cap = 1; cap < 5; cap++) { auto go = [](auto& o) { o << 'x' << -5 << std::string(" ") << LLONG_MIN << LONG_MAX << 0.5f << -1.25 << std::string("a\0b", 3); }; std::string a = by_simple(cap, [&](simple_writer& w) { simple_writer_stream o(w); go(o); }), b = by_fast(cap, [&](fast_write& w) { go(w); }); MC_CHECK(a == want, "simple stream prints %s", hex(a).c_str()); MC_CHECK(b == want, "fast stream prints %s", hex(b).c_str()); }
    std::string i1 = by_simple(64, [](simple_writer& w) { w.write_int(INT_MIN).write_ll(LLONG_MIN); }), i2 = by_fast(64, [](fast_write& w) { w.write_int(INT_MIN).write_ll(LLONG_MIN); }), iw = std::to_string(INT_MIN) + std::to_string(LLONG_MIN); MC_CHECK(i1 == iw && i2 == iw, "minimum integers are printed as %s and %s", i1.c_str(), i2.c_str());
}
static void judge(const std::string& s, double f, int prec, bool sci, const char* who) {
    size_t p = 0; bool neg = false; if (p < s.size() && s[p] == '-') { neg = true; p++; } size_t a = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; size_t nint = p - a; bool ok = nint >= 1 && (!sci || nint == 1); size_t frac = 0; if (prec > 0) { ok = ok && p < s.size() && s[p] == '.'; p++; size_t q = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; frac = p - q; }
    ok = ok && (int)frac == prec; int e = 0; if (sci) { ok = ok && p + 1 < s.size() && s[p] == 'e' && (s[p + 1] == '+' || s[p + 1] == '-'); size_t q = p + 2; e = ok ? atoi(s.c_str() + p + 1) : 0; p = q; while (p < s.size() && isdigit((unsigned char)s[p])) p++; ok = ok && p - q >= 3; }
    MC_CHECK(ok && p == s.size(), "%s prints %.17g with %d digits%s as %s", who, f, prec, sci ? " (scientific)" : "", s.c_str()); if (f != 0) MC_CHECK(neg == (f < 0), "%s prints the sign of %.17g as %s", who, f, s.c_str());
    long double v = strtold(s.c_str() + neg, 0), x = fabsl((long double)f), tol = 0.5L * powl(10, (sci ? e : 0) - prec) * (1 + 1e-9L) + x * 2.3e-16L * 24; long double d = fabsl(v - x);
    MC_CHECK(d <= tol, "%s prints %.17g with %d digits%s as %s", who, f, prec, sci ? " (scientific)" : "", s.c_str());
    if (sci && f != 0 && prec < 14) MC_CHECK(s[a] != '0' , "%s prints %.17g with %d digits as %s: not normalised", who, f, prec, s.c_str());
}
static void real(double f, int prec, bool sci) {
    mc::op(); judge(by_simple(700, [&](simple_writer& w) { w.write_double(f, prec, sci); }), f, prec, sci, "simple_writer"); judge(by_fast(700, [&](fast_write& w) { w.write_double(f, prec, sci); }), f, prec, sci, "fast_write");
    float g = (float)f; if (fabs(f) < 1e30 && (f == 0 || fabs(f) > 1e-30)) { judge(by_simple(700, [&](simple_writer& w) { w.write_float(g, prec, sci); }), g, prec, sci, "simple_writer(float)"); judge(by_fast(700, [&](fast_write& w) { w.write_float(g, prec, sci); }), g, prec, sci, "fast_write(float)"); }
}
static void grid() {
    static const double m[] = {0, 1, 2, 3, 5, 7, 9, 1.5, 2.5, 9.5, 0.5, 1.25, 0.95, 0.995, 9.4, 9.95, 9.96, 9.994, 9.996, 9.9995, 9.99996, 9.999995, 9.9999996, 9.99999996, 9.999999999996, 99.96, 999.996, 1.05, 1.005, 1.23456789012345, 3.14159265358979, 2.71828182845905, 8.88888888888, 4.44444444444, 5.55555555555, 0.1, 0.2, 0.3, 0.7, 6.02214076, 1.0000000000001, 0.9999999999999, 10.0000000001};
    int i = mc::choose((int)(sizeof m / sizeof *m)), sg = mc::choose(2), big = mc::choose(3); static const int ex0[] = {0, 1, 2, 3, -1, -2, -3, -5, 5}, ex1[] = {8, 10, 15, 18, 22, -8, -10, -15, -20}, ex2[] = {30, 60, 100, 200, 295, -30, -100, -200, -290}; int e = (big == 0 ? ex0 : big == 1 ? ex1 : ex2)[mc::choose(9)]; double f = m[i] * pow(10.0, e) * (sg ? -1 : 1); mc::state(mc::H()(i)(sg)(e)); for (int p = 0; p <= 15; p++) { real(f, p, true); real(f, p, false); }
}
static void thousandths(int n) { int b = mc::choose(n / 100); mc::state(b); for (int k = b * 100; k < b * 100 + 100; k++) for (int p = 0; p <= 5; p++) { real(k / 1000.0, p, false); real(-k / 1000.0, p, true); real(k / 8.0, p, false); } }
static void near_powers() { int e = mc::choose(41) - 20, d = mc::choose(9) - 4; double f = pow(10.0, e); for (int i = 0; i < abs(d); i++) f = nextafter(f, d > 0 ? INFINITY : 0); mc::state(mc::H()(e)(d)); for (int p = 0; p <= 13; p++) { real(f, p, true); real(f, p, false); } }
// ---- stream output of containers and math types
template<class T> static std::string out(const T& x) { std::ostringstream os; os << x; return os.str(); }
static std::string brace(const std::vector<int>& v) { std::string s = "{"; for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + std::to_string(v[i]); return s + "}"; }
static void containers() {
    int n = mc::choose(5); std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(mc::choose(4) - 1); mc::op(); mc::state(mc::H()(n).str(mc::show(v))); std::string w = brace(v); MC_CHECK(out(v) == w, "vector %s prints as %s", w.c_str(), out(v).c_str());
    std::vector<std::vector<int>> vv{v, {}, v}; MC_CHECK(out(vv) == "{" + w + ", {}, " + w + "}", "nested vector prints as %s", out(vv).c_str()); std::pair<std::vector<int>, int> p{v, 7}; MC_CHECK(out(p) == "{" + w + ", 7}", "pair prints as %s", out(p).c_str());
    std::set<int> s(v.begin(), v.end()); MC_CHECK(out(s) == brace(std::vector<int>(s.begin(), s.end())), "set prints as %s", out(s).c_str()); std::map<int, int> m; for (int i = 0; i < n; i++) m[v[i]] = i; std::string mw = "{"; for (auto& e : m) { if (mw.size() > 1) mw += ", "; mw += "{" + std::to_string(e.first) + ", " + std::to_string(e.second) + "}"; } mw += "}"; MC_CHECK(out(m) == mw, "map prints as %s", out(m).c_str());
    std::unordered_set<int> us(s.begin(), s.end()); MC_CHECK(out(us) == brace(std::vector<int>(us.begin(), us.end())), "unordered set"); if (n == 3) { std::array<int, 3> a{{v[0], v[1], v[2]}}; MC_CHECK(out(a) == w, "array prints as %s", out(a).c_str()); altruct::math::triple<int> t{v[0], v[1], v[2]}; MC_CHECK(out(t) == w, "triple prints as %s", out(t).c_str()); altruct::math::vector2d<int> q(v[0], v[1]); MC_CHECK(out(q) == brace({v[0], v[1]}), "vector2d prints as %s", out(q).c_str()); }
    altruct::math::polynom<int> pl(v); { io_polynom_as_vector _(true); MC_CHECK(out(pl) == w, "polynomial prints as %s", out(pl).c_str()); }
    { io_polynom_as_vector _(false); std::string t = out(pl); // read it back
      std::vector<int> back(6, 0); std::istringstream is(t); std::string tok; bool ok = true; int c = 0; while (ok && is >> c) { int e = 0; is >> std::ws; if (is.peek() == 'x') { is.get(); e = 1; if (is.peek() == '^') { is.get(); is >> e; } } if (e < 0 || e > 5) { ok = false; break; } back[e] += c; char plus; if (is >> plus) ok = plus == '+'; } for (int i = 0; i < 6; i++) ok = ok && back[i] == (i < n ? v[i] : 0); MC_CHECK(ok, "polynomial %s prints as %s", w.c_str(), t.c_str()); }
}
static void manipulators() { // every nesting of manipulators restores the outer setting
    typedef altruct::math::fraction<int> fr; int p = mc::choose(5) - 2, q = mc::choose(3) + 1; fr f(p, q); auto expect = [&](bool den, bool pair) { if (pair) return "{" + std::to_string(f.p) + ", " + std::to_string(f.q) + "}"; if (den || f.q != 1) return std::to_string(f.p) + "/" + std::to_string(f.q); return std::to_string(f.p); }; mc::op(); bool d0 = iostream_fraction_state.always_output_denominator, p0 = iostream_fraction_state.output_as_pair;
    typedef altruct::math::modulo<int, 7> md; md m(p); auto mexp = [&](bool mod, bool pair) { std::string v = std::to_string((p + 7) % 7); return pair ? "{" + v + ", 7}" : mod ? v + " (mod 7)" : v; }; bool m0 = iostream_modulo_state.output_modulus, mp0 = iostream_modulo_state.output_as_pair;
    int a = mc::choose(2), b = mc::choose(2), c = mc::choose(2), d = mc::choose(2); mc::state(mc::H()(p)(q)(a)(b)(c)(d));
    auto is = [&](bool den, bool pair, const char* at) { MC_CHECK(out(f) == expect(den, pair), "%s: fraction prints as %s", at, out(f).c_str()); std::vector<fr> v{f, f}; MC_CHECK(out(v) == "{" + expect(den, pair) + ", " + expect(den, pair) + "}", "vector of fractions prints as %s", out(v).c_str()); };
    is(d0, p0, "default"); { io_fraction_denominator x(a); is(a, p0, "outer"); { io_fraction_as_pair y(b); is(a, b, "inner"); { io_fraction_denominator z(c); is(c, b, "innermost"); { io_fraction_as_pair u(d); is(c, d, "deepest"); } is(c, b, "back in innermost"); } is(a, b, "back in inner"); } is(a, p0, "back in outer"); } is(d0, p0, "back in default"); { std::ostringstream os; os << io_fraction_denominator(true) << f; MC_CHECK(os.str() == expect(true, p0), "inline manipulator prints %s", os.str().c_str()); } is(d0, p0, "after the inline manipulator");
    auto im = [&](bool mod, bool pair, const char* at) { MC_CHECK(out(m) == mexp(mod, pair), "%s: modulo prints as %s", at, out(m).c_str()); }; im(m0, mp0, "default"); { io_modulo_modulus x(a); im(a, mp0, "outer"); { io_modulo_as_pair y(b); im(a, b, "inner"); { io_modulo_modulus z(c); im(c, b, "innermost"); } im(a, b, "back in inner"); } im(a, mp0, "back in outer"); } im(m0, mp0, "back in default");
}
MC_SETUP(all) {
    for (int cap : {1, 2, 3, 4, 64}) mc::add("buffered_cap" + std::to_string(cap), [cap] { buffered(cap, mc::tier(4, 5)); }, 16); mc::add("plain", [] { plain(mc::tier(4, 6)); }, 8);
    mc::add("int16", int16, 8); mc::add("int32", bounds<int>, 2); mc::add("uint32", bounds<unsigned>, 2); mc::add("int64", bounds<long long>, 4); mc::add("uint64", bounds<unsigned long long>, 4); mc::add("streams", streams, 1);
    mc::add("grid", grid, 32); mc::add("thousandths", [] { thousandths(mc::tier(10000, 40000)); }, 32); mc::add("near_powers", near_powers, 8); mc::add("containers", containers, 4); mc::add("manipulators", manipulators, 2);
}
