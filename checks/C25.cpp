// C25 parser: every well-formed token sequence up to a length under every precedence and associativity assignment against precedence climbing.
// MC_BOUNDS: listed well-formed sequences of 20..400 tokens under every precedence and associativity assignment; every well-formed infix sequence of up to 8 (quick) / 10 (thorough) tokens out of operands, two binary, one prefix and one postfix operator, parentheses, a function with 0..3 arguments and separators (also several top-level expressions), under every assignment of precedence levels and of associativity per level; every pair and triple of the built-in operators over small values against C; every built-in evaluator
// MC_ASSUME: binary and postfix operators on the same precedence level have the same associativity (prefix operators are RIGHT, on any level; postfix operators are LEFT); malformed expressions are outside the contract
#include "mc.h"
#include "large.h"
#include "altruct/algorithm/parser/shunting_yard.h"
#include <math.h>
#include <string>
#include <memory>
using namespace altruct::parser;
using namespace altruct::parser::shunting_yard;
typedef infix_token::type_t tok; typedef operator_desc::assoc_t assoc; typedef operator_desc::arity_t arity;
// terms are interned expression trees
struct term { std::string s; };
enum { B1, B2, PRE, POST, FUN };
static const char* oname[] = {"+", "*", "-", "!", "f"};
struct ref { // precedence climbing
    const std::vector<infix_token>& t; const std::vector<operator_desc>& ops; size_t p; int no;
    ref(const std::vector<infix_token>& t, const std::vector<operator_desc>& ops) : t(t), ops(ops), p(0), no(0) {}
    bool at(tok k) { return p < t.size() && t[p].type == k; }
    std::string primary() {
        if (at(tok::OPERAND)) return "v" + std::to_string(t[p++].id);
        if (at(tok::LEFT_PARENTHESIS)) { p++; std::string r = expr(0, false); p++; return r; }
        if (at(tok::FUNCTION)) { std::string r = std::string(oname[t[p].id]) + "("; p += 2; while (!at(tok::RIGHT_PARENTHESIS)) { r += expr(0, false) + ","; if (at(tok::SEPARATOR)) p++; } p++; return r + ")"; }
        int o = t[p++].id; return std::string(oname[o]) + "(" + expr(ops[o].precedence, false) + ",)"; // prefix: everything that binds tighter or is right associative on its level; a left associative operator of the same level takes the prefix expression as its left operand
    }
    // parses operators with precedence above `min` (strict) or at least `min`
    std::string expr(int min, bool strict) {
        std::string l = primary();
        while (at(tok::OPERATOR)) { int o = t[p].id, q = ops[o].precedence; if (q < min || (q == min && (strict || ops[o].associativity == assoc::LEFT))) break; p++; if (o == POST) l = std::string(oname[o]) + "(" + l + ",)"; else { std::string r = expr(q, ops[o].associativity == assoc::LEFT); l = std::string(oname[o]) + "(" + l + "," + r + ",)"; } }
        return l;
    }
    std::vector<std::string> all() { std::vector<std::string> r{expr(0, false)}; while (at(tok::SEPARATOR)) { p++; r.push_back(expr(0, false)); } return r; }
};
static std::string text(const std::vector<infix_token>& v) { std::string s; for (auto& t : v) s += t.type == tok::OPERAND ? "v" + std::to_string(t.id) : t.type == tok::OPERATOR ? std::string(1, "+*-!"[t.id]) : t.type == tok::FUNCTION ? "f" : t.type == tok::LEFT_PARENTHESIS ? "(" : t.type == tok::RIGHT_PARENTHESIS ? ")" : ","; return s; }
struct config { std::vector<operator_desc> ops; std::string s; };
static std::vector<config> configs() {
    std::vector<config> r; for (int m = 0; m < 256; m++) { int l[4], used = 0; for (int i = 0; i < 4; i++) { l[i] = m >> 2 * i & 3; used |= 1 << l[i]; } int k = 0; while (used >> k & 1) k++; if (used >> k) continue;
        for (int a = 0; a < 1 << k; a++) { if (a >> l[POST] & 1) continue; bool alone = true; for (int i = 0; i < 4; i++) alone = alone && (i == PRE || l[i] != l[PRE]); if (alone && !(a >> l[PRE] & 1)) continue; config c; for (int i = 0; i < 4; i++) { c.ops.push_back({10 + 3 * l[i], i == PRE || (a >> l[i] & 1) ? assoc::RIGHT : assoc::LEFT, i < 2 ? arity::BINARY : arity::UNARY}); c.s += std::string(oname[i]) + ":" + std::to_string(l[i]) + (a >> l[i] & 1 ? "R " : "L "); } r.push_back(c); } }
    return r;
}
static void judge(std::vector<infix_token>& t, const config& c) {
    ref rf(t, c.ops); auto want = rf.all(); if (rf.p != t.size()) mc::fail("reference parser stops early in %s", text(t).c_str()); mc::op();
    auto post = infix_to_postfix<>(t, c.ops); int depth = 0; for (auto& p : post) { if (p.type == postfix_token::type_t::OPERAND) depth++; else { MC_CHECK(p.num_args >= 0 && p.num_args <= depth, "%s with %s: %s takes %d arguments but only %d values are there", text(t).c_str(), c.s.c_str(), oname[p.id], p.num_args, depth); depth -= p.num_args - 1; } }
    std::vector<std::string> vals; for (int i = 0; i < 12; i++) vals.push_back("v" + std::to_string(i));
    int na[5] = {2, 2, 1, 1, -1}; std::vector<std::function<std::string(std::string*)>> ev; std::vector<int> fun; size_t fi = 0; for (auto& p : post) if (p.type == postfix_token::type_t::FUNCTION && p.id == FUN) fun.push_back(p.num_args);
    for (int o = 0; o < 5; o++) ev.push_back([&, o](std::string* a) { int n = o == FUN ? fun[fi++] : na[o]; std::string s = std::string(oname[o]) + "("; for (int i = 0; i < n; i++) s += a[i] + ","; return s + ")"; });
    auto got = evaluate_postfix(post, vals, ev); if (got != want) { std::string g, w; for (auto& x : got) g += x + " "; for (auto& x : want) w += x + " "; mc::fail("%s with %s evaluates to %s expected %s", text(t).c_str(), c.s.c_str(), g.c_str(), w.c_str()); }
}
// generates every well-formed token sequence
static void sequences(int maxlen) {
    static std::vector<config> cs = configs(); std::vector<infix_token> t; std::vector<int> open; /* 1: function, 0: parenthesis */ std::vector<int> args; bool need = true; int nv = 0, fargs = 0;
    while (true) {
        int left = maxlen - (int)t.size() - (int)open.size(); // tokens left if everything is closed
        if (need) { if (left < 1) return; bool can0 = !t.empty() && t.back().type == tok::LEFT_PARENTHESIS && !open.empty() && open.back(); int o = mc::choose(4 + can0); if (o == 0) { t.push_back({tok::OPERAND, nv++}); need = false; } else if (o == 1) { if (left < 2) return; t.push_back({tok::OPERATOR, PRE}); } else if (o == 2) { if (left < 3) return; t.push_back({tok::LEFT_PARENTHESIS, 0}); open.push_back(0); } else if (o == 3) { if (left < 3) return; t.push_back({tok::FUNCTION, FUN}); t.push_back({tok::LEFT_PARENTHESIS, 0}); open.push_back(1); } else { t.push_back({tok::RIGHT_PARENTHESIS, 0}); open.pop_back(); need = false; } }
        else { int o = mc::choose(6); if (o == 0) { if (!open.empty()) { t.push_back({tok::RIGHT_PARENTHESIS, 0}); open.pop_back(); } else break; } else if (o <= 2) { if (left < 2) return; t.push_back({tok::OPERATOR, o - 1}); need = true; } else if (o == 3) { if (left < 1) return; t.push_back({tok::OPERATOR, POST}); } else if (o == 4) { if (left < 2 || (!open.empty() && !open.back())) return; t.push_back({tok::SEPARATOR, 0}); need = true; } else return; }
    }
    mc::trace("%s", text(t).c_str()); mc::state(mc::H().str(text(t))); bool used[4] = {}; for (auto& x : t) if (x.type == tok::OPERATOR) used[x.id] = true; for (auto& c : cs) judge(t, c);
}
static void large() { // long expressions of five characters: mixed, deeply nested, operator chains, prefix/postfix heavy, many arguments
    static const int N[] = {20, 60, 400}; static std::vector<config> cs = configs(); int maxlen = N[mc::choose(3)], kind = mc::choose(5), seed = mc::choose(mc::tier(8, 60)); mc::state(mc::H()(maxlen)(kind)(seed)); lg::Lcg g(maxlen + kind * 7 + seed * 1001); std::vector<infix_token> t; std::vector<int> open; int nv = 0; bool need = true;
    while (true) { int left = maxlen - (int)t.size() - (int)open.size();
        if (need) { int w = g.below(100); bool empty = !t.empty() && t.back().type == tok::LEFT_PARENTHESIS && !open.empty() && open.back(); if (empty && w < 10) { t.push_back({tok::RIGHT_PARENTHESIS, 0}); open.pop_back(); need = false; } else if (left > 4 && w < (kind == 1 ? 45 : kind == 2 ? 12 : 20)) { t.push_back({tok::LEFT_PARENTHESIS, 0}); open.push_back(0); } else if (left > 4 && w >= 85 - (kind == 4) * 15) { t.push_back({tok::FUNCTION, FUN}); t.push_back({tok::LEFT_PARENTHESIS, 0}); open.push_back(1); } else if (left > 2 && w >= 70 - (kind == 3) * 30 && kind != 4) t.push_back({tok::OPERATOR, PRE}); else { t.push_back({tok::OPERAND, nv++ % 12}); need = false; } }
        else { if (left < 3) { if (open.empty()) break; t.push_back({tok::RIGHT_PARENTHESIS, 0}); open.pop_back(); continue; } int w = g.below(100); if (w < (kind == 2 ? 5 : 20)) { if (!open.empty()) { t.push_back({tok::RIGHT_PARENTHESIS, 0}); open.pop_back(); } } else if (w < (kind == 3 ? 60 : 35)) t.push_back({tok::OPERATOR, POST}); else if (w < (kind == 4 ? 80 : 45) && (open.empty() || open.back())) { t.push_back({tok::SEPARATOR, 0}); need = true; } else { t.push_back({tok::OPERATOR, g.below(2) ? B1 : B2}); need = true; } } }
    mc::trace("%s", text(t).c_str()); for (auto& c : cs) judge(t, c); }
MC_SETUP(large_setup) { mc::add("large", large, 15); }
// ---- built-in operator tables
struct cop { int id; int prec; long long (*f)(long long, long long); };
typedef integer_math<long long> im; typedef long long ll;
static const cop cops[] = {
    {im::MUL, 11, [](ll a, ll b) { return a * b; }}, {im::DIV, 11, [](ll a, ll b) { return b ? a / b : 0; }}, {im::MOD, 11, [](ll a, ll b) { return b ? a % b : 0; }}, {im::ADD, 10, [](ll a, ll b) { return a + b; }}, {im::SUB, 10, [](ll a, ll b) { return a - b; }}, {im::SHL, 9, [](ll a, ll b) { return (ll)((unsigned long long)a << (b & 63)); }}, {im::SHR, 9, [](ll a, ll b) { return a >> (b & 63); }}, {im::LTE, 8, [](ll a, ll b) { return (ll)(a <= b); }}, {im::GTE, 8, [](ll a, ll b) { return (ll)(a >= b); }}, {im::LT, 8, [](ll a, ll b) { return (ll)(a < b); }}, {im::GT, 8, [](ll a, ll b) { return (ll)(a > b); }}, {im::EQ, 7, [](ll a, ll b) { return (ll)(a == b); }}, {im::NEQ, 7, [](ll a, ll b) { return (ll)(a != b); }}, {im::BIT_AND, 6, [](ll a, ll b) { return a & b; }}, {im::BIT_XOR, 5, [](ll a, ll b) { return a ^ b; }}, {im::BIT_OR, 4, [](ll a, ll b) { return a | b; }}, {im::LOG_AND, 3, [](ll a, ll b) { return (ll)(a && b); }}, {im::LOG_XOR, 2, [](ll a, ll b) { return (ll)(!a != !b); }}, {im::LOG_OR, 1, [](ll a, ll b) { return (ll)(a || b); }}};
static const int NC = sizeof cops / sizeof *cops;
static bool safe(const cop& c, ll a, ll b) { if (c.id == im::DIV || c.id == im::MOD) return b != 0; if (c.id == im::SHL || c.id == im::SHR) return b >= 0 && b < 8 && a >= 0 && a < 1000; return a < 100000 && a > -100000 && b < 100000 && b > -100000; }
static ll eval(std::vector<infix_token> t, const std::vector<ll>& v) { auto p = infix_to_postfix<>(t, im::operators()); auto r = evaluate_postfix(p, v, im::evaluators()); MC_CHECK(r.size() == 1, "%d values", (int)r.size()); return r[0]; }
static void builtin() {
    const cop& x = cops[mc::choose(NC)]; const cop& y = cops[mc::choose(NC)]; mc::op(); static const ll V[] = {-3, -1, 0, 1, 2, 6}; int un = mc::choose(5), ub = mc::choose(2) ; /* unary operator on a or b */ mc::state(mc::H()(x.id)(y.id)(un)(ub)); if (un == 0 && ub) return;
    for (ll a : V) for (ll b : V) for (ll c : V) {
        auto u = [&](ll z) { return un == 1 ? -z : un == 2 ? ~z : un == 3 ? (ll)!z : un == 4 ? -~z : z; }; ll A = ub == 0 ? u(a) : a, B = ub == 1 ? u(b) : b; bool leftf = x.prec >= y.prec; ll want; if (leftf) { if (!safe(x, A, B)) continue; ll m = x.f(A, B); if (!safe(y, m, c)) continue; want = y.f(m, c); } else { if (!safe(y, B, c)) continue; ll m = y.f(B, c); if (!safe(x, A, m)) continue; want = x.f(A, m); }
        std::vector<infix_token> t; auto un_tok = [&] { if (un == 1 || un == 4) t.push_back({tok::OPERATOR, im::NEG}); if (un == 2 || un == 4) t.push_back({tok::OPERATOR, im::BIT_NOT}); if (un == 3) t.push_back({tok::OPERATOR, im::LOG_NOT}); };
        if (ub == 0) un_tok(); t.push_back({tok::OPERAND, 0}); t.push_back({tok::OPERATOR, x.id}); if (ub == 1) un_tok(); t.push_back({tok::OPERAND, 1}); t.push_back({tok::OPERATOR, y.id}); t.push_back({tok::OPERAND, 2}); ll g = eval(t, {a, b, c}); MC_CHECK(g == want, "%lld op%d %lld op%d %lld (unary %d on operand %d) gives %lld, expected %lld", a, x.id, b, y.id, c, un, ub, g, want);
        if (un == 0) { /* parentheses on the right */ if (!safe(y, B, c)) continue; ll m = y.f(B, c); if (!safe(x, A, m)) continue; std::vector<infix_token> q{{tok::OPERAND, 0}, {tok::OPERATOR, x.id}, {tok::LEFT_PARENTHESIS, 0}, {tok::OPERAND, 1}, {tok::OPERATOR, y.id}, {tok::OPERAND, 2}, {tok::RIGHT_PARENTHESIS, 0}}; ll g = eval(q, {a, b, c}); MC_CHECK(g == x.f(A, m), "%lld op%d (%lld op%d %lld) gives %lld", a, x.id, b, y.id, c, g); }
    }
}
static void functions() {
    mc::op(); int a = mc::choose(50), b = mc::choose(6); mc::state(mc::H()(a)(b)); ll p = 1; for (int i = 0; i < b; i++) p *= a - 20; { ll s = 0; while ((s + 1) * (s + 1) <= a) s++; ll g = eval({{tok::FUNCTION, im::SQRT}, {tok::LEFT_PARENTHESIS, 0}, {tok::OPERAND, 0}, {tok::RIGHT_PARENTHESIS, 0}}, {a}); MC_CHECK(g == s, "sqrt(%d) gives %lld", a, g); }
    { ll g = eval({{tok::FUNCTION, im::POW}, {tok::LEFT_PARENTHESIS, 0}, {tok::OPERAND, 0}, {tok::SEPARATOR, 0}, {tok::OPERAND, 1}, {tok::RIGHT_PARENTHESIS, 0}}, {a - 20, b}); MC_CHECK(g == p, "pow(%d, %d) gives %lld", a - 20, b, g); }
    typedef floating_point_math<double> fm; double x = (a - 25) / 8.0, y = (b - 2) / 4.0; struct F { int id; double (*f)(double); }; static const F fs[] = {{fm::SQRT, sqrt}, {fm::EXP, exp}, {fm::LOG, log}, {fm::SIN, sin}, {fm::COS, cos}, {fm::TAN, tan}, {fm::SINH, sinh}, {fm::COSH, cosh}, {fm::TANH, tanh}, {fm::ASIN, asin}, {fm::ACOS, acos}, {fm::ATAN, atan}, {fm::ASINH, asinh}, {fm::ACOSH, acosh}, {fm::ATANH, atanh}};
    auto same = [](double u, double v) { return (std::isnan(u) && std::isnan(v)) || u == v || fabs(u - v) <= 1e-12 * fabs(v); }; for (auto& f : fs) { double g = fm::evaluators()[f.id](&x); MC_CHECK(same(g, f.f(x)), "floating function %d of %g gives %g", f.id, x, g); } double ar[2] = {x, y}; auto ev = [&](int id) { return fm::evaluators()[id](ar); };
    MC_CHECK(same(ev(fm::POW), pow(x, y)) && same(ev(fm::ATAN2), atan2(x, y)) && same(ev(fm::ADD), x + y) && same(ev(fm::SUB), x - y) && same(ev(fm::MUL), x * y) && same(ev(fm::DIV), x / y) && same(ev(fm::NEG), -x), "floating operators at %g %g", x, y);
    typedef basic_math<double> bm; MC_CHECK(bm::evaluators()[bm::ADD](ar) == x + y && bm::evaluators()[bm::SUB](ar) == x - y && bm::evaluators()[bm::MUL](ar) == x * y && same(bm::evaluators()[bm::DIV](ar), x / y) && bm::evaluators()[bm::NEG](ar) == -x, "basic operators at %g %g", x, y);
    for (int k = 0; k < 2; k++) for (int o1 = 1; o1 < 5; o1++) for (int o2 = 1; o2 < 5; o2++) { auto& ops = k ? fm::operators() : bm::operators(); static const int ids[2][5] = {{bm::NEG, bm::MUL, bm::DIV, bm::ADD, bm::SUB}, {fm::NEG, fm::MUL, fm::DIV, fm::ADD, fm::SUB}}; auto ap = [&](int o, double u, double v) { return o == 1 ? u * v : o == 2 ? u / v : o == 3 ? u + v : u - v; }; std::vector<infix_token> t{{tok::OPERATOR, ids[k][0]}, {tok::OPERAND, 0}, {tok::OPERATOR, ids[k][o1]}, {tok::OPERAND, 1}, {tok::OPERATOR, ids[k][o2]}, {tok::OPERAND, 0}}; bool lf = o1 <= 2 || o2 > 2; double w = lf ? ap(o2, ap(o1, -x, y), x) : ap(o1, -x, ap(o2, y, x)); auto p = infix_to_postfix<>(t, ops); std::vector<double> v{x, y}, g = k ? evaluate_postfix(p, v, fm::evaluators()) : evaluate_postfix(p, v, bm::evaluators()); MC_CHECK(g.size() == 1 && same(g[0], w), "-%g op%d %g op%d %g gives %g, expected %g", x, o1, y, o2, x, g[0], w); }
}
MC_SETUP(all) { mc::add("sequences", [] { sequences(mc::tier(8, 10)); }, 64); mc::add("builtin", builtin, 16); mc::add("functions", functions, 2); }
MC_SCENARIO(tokens, 1) { int a = mc::choose(12), b = mc::choose(12); mc::state(mc::hash(25, a, b)); mc::op(); auto mk = [](int c) { return postfix_token{c & 1 ? postfix_token::type_t::OPERAND : postfix_token::type_t::FUNCTION, c / 2 % 2, c / 4}; }; MC_CHECK((mk(a) == mk(b)) == (a == b), "postfix token equality of %d and %d", a, b); }
