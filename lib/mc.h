// Bounded exhaustive explorer for the real altruct code (stateless model checking).
//
// A *scenario* is a body function which resolves all of its nondeterminism (which operation comes next,
// its arguments, environment answers, random priorities, scheduler decisions) by calling mc::choose(n).
// The explorer runs the body once for EVERY resolution of those choices (depth-first enumeration of the
// choice tree, by re-execution), so all operation sequences / inputs / schedules within the bounds that
// the body encodes are executed on the real code and compared, step by step, with a reference model.
//
//  mc::choose(n)   next choice, 0..n-1                    mc::op()      one transition executed
//  mc::state(h)    count a distinct (canonical) state     mc::seen(h)   true if state h was reached before:
//                                                          the body then returns (its futures are explored)
//  mc::fail(...)   property violated: stop                 mc::known(key, ...)  violation with a stable key
//  mc::trace(...)  human readable event (replay / samples)
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>

namespace mc {

enum { MAX_TRACE = 1 << 14 };

struct Skip {}; // thrown to abandon an execution that belongs to another shard / was cut

int choose(int n);
void op(uint64_t k = 1);
bool state(uint64_t h);            // returns true if new
bool seen(uint64_t h);             // marks h visited; returns true if it already was
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void known(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool tracing();
bool fresh();                      // false while re-executing an already explored (and verified) prefix
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool thorough();
int tier(int quick_value, int thorough_value);
[[noreturn]] void cut();           // abandon this execution (outside the stated bounds); counted as "cut"
void on_fail_exit();               // internal

struct Reg { Reg(const char* name, void (*fn)(), int shards, int hang_s); };
// for parametrised scenarios, registered from a function run before exploration
void add(const std::string& name, std::function<void()> fn, int shards = 1, int hang_s = 0);
struct Setup { Setup(void (*fn)()); };

inline uint64_t mix(uint64_t x) {
    x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; return x;
}
struct H {
    uint64_t h = 0x9e3779b97f4a7c15ull;
    H& operator()(uint64_t x) { h = mix(h ^ mix(x + 0x632be59bd9b4e019ull)) + 0x9e3779b97f4a7c15ull; return *this; }
    template <class C> H& range(const C& c) { uint64_t n = 0; for (const auto& e : c) { (*this)((uint64_t)e); n++; } return (*this)(n ^ 0xabcdef); }
    H& str(const std::string& s) { for (unsigned char c : s) (*this)(c); return (*this)(s.size() ^ 0x5555); }
    operator uint64_t() const { return h; }
};
template <class... A> uint64_t hash(A... a) { H h; int d[] = {0, (h((uint64_t)a), 0)...}; (void)d; return h; }

template <class C> std::string show(const C& c) { std::string s = "["; bool f = true; for (const auto& e : c) { if (!f) s += " "; f = false; s += std::to_string(e); } return s + "]"; }

} // namespace mc

#define MC_CHECK(cond, ...) do { if (!(cond)) { mc::fail(__VA_ARGS__); } } while (0)
#define MC_SCENARIO(name, shards) static void name(); static mc::Reg name##_reg(#name, &name, shards, 0); static void name()
#define MC_SETUP(name) static void name(); static mc::Setup name##_setup(&name); static void name()
