// C22 typed reading: every short text through every reader, buffer size and sequence of typed reads against a grammar; token readers against maximal runs.
// MC_BOUNDS: every text up to 5 (quick) / 6 (thorough) bytes over {0 7 - + space newline . e x} with every typed read first, every text up to 4/5 bytes with every sequence of up to three typed reads (int, long, long long, unsigned, float, double, string, character, line), every text over {a space newline NUL 0xff ;} up to 5/6 bytes for strings, characters and lines; buffer capacities 1, 2, 3, 64 and sources delivering 1 or 2 bytes at a time; all boundary values of 16/32/64-bit integers in several spellings; all texts up to 7/8 bytes for the token readers
// MC_ASSUME: only well-formed prefixes are judged: optional whitespace, optional sign, at least one digit; a fraction or exponent only with digits; decimal exponents within +-300; signs not for unsigned types; token readers on text that starts with a token; floating values within a few ulp of the correctly rounded value
#include "mc.h"
#include <string.h>
#include "altruct/io/reader.h"
#include "altruct/io/fast_io.h"
#include "altruct/io/stream_tokenizer.h"
#include "io_sources.h"
#include <sstream>
#include <limits>
#include <stdlib.h>
#include <math.h>
using namespace altruct::io;
static std::string vis(const std::string& s) { std::string r = "'"; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127) r += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r + "'"; }
struct chunks : reader { const std::string& s; size_t p; int max; bool bad; chunks(const std::string& s, int max) : s(s), p(0), max(max), bad(false) {}
    int read_char() override { if (p >= s.size()) { bad = true; return -1; } return (unsigned char)s[p++]; }
    size_t read(char* b, size_t n) override { size_t r = std::min(n, s.size() - p); if (r < n) bad = true; r = std::min(r, (size_t)max); memcpy(b, s.data() + p, r); p += r; return r; }
    operator bool() const override { return !bad; } };
enum { INT, LL, DBL, STR, CHR, LINE, UNS, LONG, FLT, NTYPES };
static const char* tname[] = {"int", "long long", "double", "string", "char", "line", "unsigned", "long", "float"};
static bool dig(char c) { return c >= '0' && c <= '9'; }
// the grammar: length of the well-formed prefix (0: none) and its extent
static bool prefix(const std::string& s, size_t p, int t, size_t& b, size_t& e) {
    if (t == CHR) { b = p; e = p + 1; return p < s.size(); }
    if (t == LINE) { b = p; e = p; while (e < s.size() && s[e] != '\n') e++; return true; }
    while (p < s.size() && (unsigned char)s[p] <= 32) p++;
    b = p; if (t == STR) { while (p < s.size() && (unsigned char)s[p] > 32) p++; e = p; return p > b; }
    if (p < s.size() && (s[p] == '-' || s[p] == '+')) { if (t == UNS) return false; p++; }
    size_t q = p; while (p < s.size() && dig(s[p])) p++; if (p == q) return false;
    if (t == DBL || t == FLT) {
        if (p < s.size() && s[p] == '.') { p++; size_t q = p; while (p < s.size() && dig(s[p])) p++; if (p == q) return false; }
        if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { p++; if (p < s.size() && (s[p] == '-' || s[p] == '+')) p++; size_t q = p; while (p < s.size() && dig(s[p])) p++; if (p == q || abs(atoi(s.substr(q, p - q).c_str())) > (t == FLT ? 20 : 300)) return false; }
    }
    e = p; return true;
}
static void num(const char* who, const std::string& s, const std::string& tok, double v, double tol) { double x = strtod(tok.c_str(), 0); MC_CHECK(fabs(v - x) <= tol * fabs(x), "%s of %s reads %s as %.17g", who, vis(s).c_str(), tok.c_str(), v); }
template<class T> static void integer(const char* who, const std::string& s, const std::string& tok, T v) { std::string w = std::to_string(v); bool neg = tok[0] == '-'; std::string d = tok.substr(tok[0] == '-' || tok[0] == '+'); size_t z = 0; while (z + 1 < d.size() && d[z] == '0') z++; d = d.substr(z); if (d == "0") neg = false; MC_CHECK(w == (neg ? "-" : "") + d, "%s of %s reads %s as %s", who, vis(s).c_str(), tok.c_str(), w.c_str()); }
template<class R> static int next_char(R& r) { return r.read_char(); }
// reads through the methods (form 0) or the stream operators (form 1)
struct via_simple { simple_reader& r; simple_reader_stream st; via_simple(simple_reader& r) : r(r), st(r) {} std::string line() { return r.read_line(); } std::string line(char d) { return st.read_line(d); } bool has_line() { return true; } };
struct via_fast { fast_read& r; fast_read& st; via_fast(fast_read& r) : r(r), st(r) {} std::string line() { return ""; } bool has_line() { return false; } };
template<class V> static bool one(V& v, const std::string& s, size_t& p, int t, int form) {
    size_t b, e; if (!prefix(s, p, t, b, e)) return false; std::string tok = s.substr(b, e - b); auto& r = v.r; const char* who = tname[t]; mc::op();
    switch (t) {
    case INT: { int x; if (form) v.st >> x; else x = r.read_int(); integer(who, s, tok, x); break; }
    case LONG: { long x; if (form) v.st >> x; else x = r.read_l(); integer(who, s, tok, x); break; }
    case LL: { long long x; if (form) v.st >> x; else x = r.read_ll(); integer(who, s, tok, x); break; }
    case UNS: { unsigned x = r.template read_integral_number<unsigned>(); integer(who, s, tok, x); break; }
    case DBL: { double x; if (form) v.st >> x; else x = r.read_double(); num(who, s, tok, x, 1e-14); break; }
    case FLT: { float x; if (form) v.st >> x; else x = r.read_float(); num(who, s, tok, x, 1e-5); break; }
    case STR: { std::string x = "?"; if (form) v.st >> x; else x = r.read_string(); MC_CHECK(x == tok, "string of %s reads %s instead of %s", vis(s).c_str(), vis(x).c_str(), vis(tok).c_str()); break; }
    case CHR: { char x; if (form) v.st >> x; else x = (char)r.read_char(); MC_CHECK(x == tok[0], "char of %s at %d reads %d", vis(s).c_str(), (int)p, x); break; }
    case LINE: { if (!v.has_line()) return false; std::string x = v.line(); MC_CHECK(x == tok, "line of %s reads %s instead of %s", vis(s).c_str(), vis(x).c_str(), vis(tok).c_str()); if (e < s.size()) e++; break; }
    }
    p = e; return true;
}
static const int capv[] = {1, 2, 3, 64};
template<class V> static void sequence(V& v, const std::string& s, const int* ts, int n, int form) {
    size_t p = 0; for (int i = 0; i < n; i++) if (!one(v, s, p, ts[i], form)) { if (i == 0) return; break; }
    // the position is right after the last value
    for (; p < s.size(); p++) { int c = v.r.read_char(); MC_CHECK(c == (unsigned char)s[p], "after reading %s from %s the next byte is %d, expected '%c'", tname[ts[0]], vis(s).c_str(), c, s[p]); }
    MC_CHECK(v.r.read_char() == -1, "after reading %s from %s there is something left", tname[ts[0]], vis(s).c_str());
}
static void run(const std::string& s, const int* ts, int n) {
    size_t b, e; if (!prefix(s, 0, ts[0], b, e)) return; mc::trace("text %s", vis(s).c_str());
    for (int cap : capv) for (int form = 0; form < 2; form++) {
        { chunks q(s, 1 + form); simple_reader r(q, cap); via_simple v(r); sequence(v, s, ts, n, form); }
        { File f(s, 1 + form, false); fast_read r(f.f, cap); via_fast v(r); sequence(v, s, ts, n, form); }
    }
}
static std::string text(const char* alpha, int k, int len) { std::string s; for (int i = 0; i < len; i++) s += alpha[mc::choose(k)]; return s; }
static const char A[] = "07-+ \n.ex";
static void single(int maxlen) { int n = mc::choose(maxlen + 1); std::string s = text(A, 9, n); mc::state(mc::H().str(s)); for (int t = 0; t < NTYPES; t++) run(s, &t, 1); }
static void several(int maxlen) { int n = 2 + mc::choose(maxlen - 1); int ts[3]; ts[0] = mc::choose(6); ts[1] = mc::choose(6); ts[2] = mc::choose(6); std::string s = text("07- \n.ex", 8, n); mc::state(mc::H().str(s)(ts[0])(ts[1])(ts[2])); run(s, ts, 3); }
static void strings(int maxlen) { int n = mc::choose(maxlen + 1); static const char B[] = {'a', ' ', '\n', 0, '\xff', ';'}; std::string s = text(B, 6, n); mc::state(mc::H().str(s)); int ts[2]; for (int a : {STR, CHR, LINE}) for (int b : {STR, CHR, LINE}) { ts[0] = a; ts[1] = b; run(s, ts, 2); }
    for (int cap : capv) for (char d : {';', '\xff', '\0', 'a'}) { chunks q(s, 2); simple_reader r(q, cap); simple_reader_stream st(r); size_t p = 0; for (int i = 0; i < 3; i++) { size_t e = s.find(d, p); std::string w = e == std::string::npos ? s.substr(std::min(p, s.size())) : s.substr(p, e - p); std::string x = i == 1 ? r.read_line(d) : st.read_line(d); MC_CHECK(x == w, "read_line(%d) number %d of %s gives %s", d, i, vis(s).c_str(), vis(x).c_str()); p = e == std::string::npos ? s.size() : e + 1; } } }
template<class T> static void bound(T v) {
    std::string d = std::to_string(v); bool neg = d[0] == '-'; std::string spell[] = {d, neg ? "-000" + d.substr(1) : "000" + d, neg ? d : (std::is_signed<T>::value ? "+" + d : d)};
    for (auto& sp : spell) for (const char* pre : {"", " ", "\n\t "}) for (const char* post : {"", " ", "x", "-1", "\n5"}) { std::string s = pre + sp + post; mc::state(mc::H().str(s)(sizeof(T))); mc::op(); mc::trace("text %s", vis(s).c_str());
        for (int cap : {1, 2, 3, 5, 9, 64}) {
            auto rest = [&](std::function<int()> rc) { for (const char* q = post; *q; q++) MC_CHECK(rc() == *q, "rest of %s", vis(s).c_str()); MC_CHECK(rc() == -1, "end of %s", vis(s).c_str()); };
            { chunks q(s, 3); simple_reader r(q, cap); T x = r.read_integral_number<T>(); MC_CHECK(x == v, "reading %s gives %s", vis(s).c_str(), std::to_string(x).c_str()); rest([&] { return r.read_char(); }); }
            { File f(s, 3, false); fast_read r(f.f, cap); T x = r.read_integral_number<T>(); MC_CHECK(x == v, "fast reading %s gives %s", vis(s).c_str(), std::to_string(x).c_str()); rest([&] { return r.read_char(); }); } } }
}
template<class T> static void bounds() {
    typedef std::numeric_limits<T> L; T mx = L::max(), mn = L::min(); std::vector<T> v; for (int i = 0; i < 12; i++) { v.push_back(mx - i); v.push_back(mn + i); v.push_back(i); v.push_back(mx / 10 + i); v.push_back(mn / 10 + i); } T t = 1; while (true) { for (int d = -1; d <= 1; d++) { v.push_back(t + d); if (std::is_signed<T>::value) v.push_back(-t + d); } if (t > mx / 10) break; t *= 10; } for (int b = 1; b < L::digits; b++) { v.push_back((T)((T)1 << b)); v.push_back((T)(((T)1 << b) - 1)); }
    bound(v[mc::choose((int)v.size())]);
}
static void floats() {
    static const char* m[] = {"0", "1", "7", "42", "123456", "0.5", "0.1", "3.14159265358979", "999999.999999", "1.0000001", "000.25", "123456789012345678", "9.99", "0.0000012345"}; static const char* ex[] = {"", "e0", "e1", "E+1", "e-1", "e10", "E-10", "e+007", "e22", "e-22", "e100", "e-100", "e290", "e-280"};
    std::string s = std::string(mc::choose(2) ? "-" : mc::choose(2) ? "+" : "") + m[mc::choose(14)] + ex[mc::choose(14)]; std::string full = "  " + s; const char* post[] = {"", " 5", "\n", "x"}; full += post[mc::choose(4)]; int t = DBL; mc::state(mc::H().str(full)); run(full, &t, 1); t = FLT; run(full, &t, 1);
}
// ---- token readers
namespace tk = altruct::io::stream_tokenizer;
template<class T> static std::vector<std::string> toks(const std::string& s) { std::istringstream is(s); T t; is >> t; return tk::unbox_tokens(t); }
static std::vector<std::string> runs(const std::string& s, std::function<bool(char)> ok) { std::vector<std::string> r; bool in = false; for (char c : s) { if (!ok(c)) { in = false; continue; } if (!in) { r.push_back(""); in = true; } r.back() += c; } return r; }
static std::string show(const std::vector<std::string>& v) { std::string r = "["; for (auto& x : v) r += vis(x) + " "; return r + "]"; }
static void judge(const std::string& s, const std::vector<std::string>& got, const std::vector<std::string>& want, const char* who) { MC_CHECK(got == want, "%s of %s gives %s, expected %s", who, vis(s).c_str(), show(got).c_str(), show(want).c_str()); }
static void tokens(int maxlen) {
    int form = mc::choose(5), n = mc::choose(maxlen + 1); mc::op(); static const char* al[] = {"1a ,", "1a,;", "aX;Y", "a1;-", "0 7-"}; int k = 4; std::string s = text(al[form], k, n); mc::state(mc::H()(form).str(s)); mc::trace("text %s", vis(s).c_str());
    auto sep = [&](std::function<bool(char)> ok) { return s.empty() || ok(s[0]); }; // starts with a token
    if (form == 0) { auto ok = [](char c) { return c != ' '; }; if (sep(ok)) judge(s, toks<tk::tokens_delimited_space>(s), runs(s, ok), "tokens_delimited_space"); }
    else if (form == 1) { auto ok = [](char c) { return c != ','; }; if (sep(ok)) { judge(s, toks<tk::tokens_delimited_comma>(s), runs(s, ok), "tokens_delimited_comma"); if (!s.empty()) { std::istringstream is(s); tk::token_delimited_comma t; is >> t; MC_CHECK(t.s == runs(s, ok)[0], "token_delimited_comma of %s", vis(s).c_str()); char c = 0; if (t.s.size() < s.size()) MC_CHECK(is.get(c) && c == ',', "token reader swallows the delimiter in %s", vis(s).c_str()); } }
        auto ok2 = [](char c) { return c != ';'; }; if (sep(ok2)) judge(s, toks<tk::tokens_delimited_semicolon>(s), runs(s, ok2), "tokens_delimited_semicolon"); auto ok3 = [](char c) { return c != ',' && c != ';'; }; if (sep(ok3)) judge(s, toks<tk::tokens_delimited<',', ';'>>(s), runs(s, ok3), "tokens_delimited(, ;)"); }
    else if (form == 2) { auto ok = [](char c) { return c != 'X' && c != 'Y'; }; if (sep(ok)) judge(s, toks<tk::tokens_delimited<'X', 'Y'>>(s), runs(s, ok), "tokens_delimited(X Y)"); auto ok2 = [](char c) { return c == 'X' || c == 'a'; }; if (sep(ok2)) judge(s, toks<tk::tokens_allowed<tk::allowed_p<'X', 'a'>>>(s), runs(s, ok2), "tokens_allowed(X a)"); }
    else if (form == 3) { auto ok = [](char c) { return c == 'a' || c == '1'; }; if (sep(ok)) judge(s, toks<tk::tokens_allowed<tk::alphanum_p>>(s), runs(s, ok), "tokens_allowed(alphanum)"); }
    else { // integers separated by blanks
        auto ok = [](char c) { return c != ' '; }; auto w = runs(s, ok); std::vector<long long> want; for (auto& x : w) { size_t b = x[0] == '-'; if (b == x.size()) return; for (size_t i = b; i < x.size(); i++) if (!dig(x[i])) return; want.push_back(atoll(x.c_str())); }
        { std::istringstream is(s); tk::ints_delimited_space t; is >> t; std::vector<long long> g(t.v.begin(), t.v.end()); MC_CHECK(g == want, "ints_delimited_space of %s gives %s, expected %s", vis(s).c_str(), mc::show(g).c_str(), mc::show(want).c_str()); }
        { std::istringstream is(s); tk::int64s_delimited_space t; is >> t; std::vector<long long> g(t.v.begin(), t.v.end()); MC_CHECK(g == want, "int64s_delimited_space of %s gives %s", vis(s).c_str(), mc::show(g).c_str()); }
        for (auto& c : s) if (c == ' ') c = ','; bool edge = s.empty() || s[0] == ',' || s.find(",,") != std::string::npos; if (!edge) { std::istringstream is(s); tk::tokens<int, char> t; is >> t; std::vector<long long> g(t.v.begin(), t.v.end()); MC_CHECK(g == want, "tokens<int,char> of %s gives %s, expected %s", vis(s).c_str(), mc::show(g).c_str(), mc::show(want).c_str()); }
    }
}
MC_SETUP(all) {
    mc::add("single", [] { single(mc::tier(5, 6)); }, 32); mc::add("several", [] { several(mc::tier(4, 5)); }, 32); mc::add("strings", [] { strings(mc::tier(5, 6)); }, 16); mc::add("floats", floats, 4); mc::add("tokens", [] { tokens(mc::tier(7, 8)); }, 16);
    mc::add("int16", bounds<int16_t>, 1); mc::add("int32", bounds<int>, 2); mc::add("uint32", bounds<unsigned>, 2); mc::add("int64", bounds<long long>, 4); mc::add("uint64", bounds<unsigned long long>, 4); mc::add("long", bounds<long>, 4);
}
