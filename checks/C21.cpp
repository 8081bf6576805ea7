// C21 readers: every sequence of reads, peeks, skips, reservations and un-reads on every reader against the byte sequence.
// MC_BOUNDS: string, file, stream, buffered (over each of them and over sources with short reads) and fast readers; inputs of 0..5 bytes that include 0x00, 0x7f, 0x80 and 0xff; buffer capacities 1..4 and roomy; all operation sequences up to 4 (quick) / 6 (thorough) operations out of single character reads, block reads of 0..3 and more bytes than the buffer holds, un-read, reserve, refill, skip, raw data access with counter/advance; every pattern of short reads of the source; every byte value through every reader; buffered readers stacked on buffered readers
// MC_ASSUME: a block read, reservation or skip of a buffered reader may deliver fewer bytes than requested when the request exceeds its buffer (the existing tests pin this); it must then deliver at least min(capacity, remaining) for reads and at least the buffered bytes for skips
#include "mc.h"
#include <string.h>
#include "altruct/io/reader.h"
#include "altruct/io/fast_io.h"
#include "io_sources.h"
#include <memory>
#include <sstream>
using namespace altruct::io;
// a source that splits the bytes arbitrarily: at most `max` bytes per call, or (max<0) any number the explorer chooses
struct short_reader : reader { std::string s; size_t p; int max; bool bad; int budget; short_reader(const std::string& s, int max) : s(s), p(0), max(max), bad(false), budget(6) {}
    int read_char() override { if (p >= s.size()) { bad = true; return -1; } return (unsigned char)s[p++]; }
    size_t read(char* b, size_t n) override { size_t r = std::min(n, s.size() - p); if (r < n) bad = true; if (max > 0) r = std::min(r, (size_t)max); else if (max < 0 && r > 1 && budget > 0) { budget--; r = 1 + mc::choose((int)std::min(r, (size_t)3)); } memcpy(b, s.data() + p, r); p += r; return r; }
    operator bool() const override { return !bad; } };
struct M { std::string s; size_t p; bool failed; bool loose; int last; }; // loose: flag unspecified (request exceeded the buffer); last: last op was a successful read_char
static std::string hex(const std::string& s) { std::string r; char b[8]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x ", c); r += b; } return r; }
static void do_char(M& m, int c, const char* who) { bool end = m.p >= m.s.size(); mc::trace("%s: read_char -> %d", who, c); if (end) { MC_CHECK(c == -1, "%s: read_char returns %d at the end of %s", who, c, hex(m.s).c_str()); m.failed = true; m.last = 0; } else { MC_CHECK(c == (unsigned char)m.s[m.p], "%s: read_char returns %d at position %d of %s, expected %d", who, c, (int)m.p, hex(m.s).c_str(), (unsigned char)m.s[m.p]); m.p++; m.last = 1; } }
static void do_block(M& m, const char* b, size_t r, size_t n, size_t cap, const char* who) { size_t rem = m.s.size() - m.p; m.last = 0; mc::trace("%s: read(%d) -> %d", who, (int)n, (int)r); MC_CHECK(r <= n && r <= rem && r >= std::min(std::min(n, rem), cap), "%s: read(%d) returns %d with %d bytes left", who, (int)n, (int)r, (int)rem); MC_CHECK(!memcmp(b, m.s.data() + m.p, r), "%s: read(%d) at position %d of %s delivers %s", who, (int)n, (int)m.p, hex(m.s).c_str(), hex(std::string(b, r)).c_str()); m.p += r; if (n > rem) m.failed = true; else if (r < n) m.loose = true; }
static void flag(const M& m, bool ok, const char* who) { if (m.failed) MC_CHECK(!ok, "%s: no failure is reported after reading past the end of %s", who, hex(m.s).c_str()); else if (!m.loose) MC_CHECK(ok, "%s: failure is reported although every read of %s succeeded (position %d)", who, hex(m.s).c_str(), (int)m.p); }
static void drain(M& m, std::function<int()> rc, const char* who) { int g = 0; while (true) { int c = rc(); bool end = m.p >= m.s.size(); do_char(m, c, who); if (end) break; if (++g > 1000) mc::fail("never ends"); } int c = rc(); MC_CHECK(c == -1, "%s: byte %d after the end", who, c); }
static const char* contents[] = {"", "a", "ab", "\xff", "a\0b", "\xff\x80", "\x7f\xff\0\x80", "abcde", "\0\0", "ab\xff""cd"};
static const int lens[] = {0, 1, 2, 1, 3, 2, 4, 5, 2, 5};
static std::string content(int i) { return std::string(contents[i], lens[i]); }
static void plain(reader& r, const std::string& s, int depth, const char* who) {
    M m{s, 0, false, false, 0}; char b[16];
    for (int i = 0; i < depth; i++) { int o = mc::choose(6); if (o == 5) break; mc::op(); if (o == 0) do_char(m, r.read_char(), who); else { int n = o - 1; size_t k = r.read(b, n); do_block(m, b, k, n, 1000, who); } flag(m, (bool)r, who); }
    drain(m, [&] { return r.read_char(); }, who); flag(m, (bool)r, who); mc::state(mc::H()(s.size()).str(who).str(s)(m.p)(m.failed));
}
// ---- buffered readers: `cap` is the capacity
static void buffered(buffered_reader& r, const std::string& s, int cap, int depth, const char* who) {
    M m{s, 0, false, false, 0}; char b[64]; size_t buffered = 0; // lower bound of what is buffered
    for (int i = 0; i < depth; i++) {
        mc::state(mc::H().str(who).str(s)(cap)(m.p)(m.failed)(buffered)(m.last)); size_t rem = s.size() - m.p; int o = mc::choose(13); if (o == 12) break; mc::op();
        if (o == 0) { do_char(m, r.read_char(), who); if (buffered) buffered--; }
        else if (o <= 3) { int n = o == 3 ? cap + 1 : o; size_t k = r.read(b, n); do_block(m, b, k, n, cap, who); buffered = buffered > k ? buffered - k : 0; }
        else if (o == 4) { if (!m.last) break; r.unread_char(); mc::trace("unread"); m.p--; m.last = 0; buffered++; }
        else if (o <= 7) { int n = o == 5 ? 1 : o == 6 ? cap : 2; size_t k = r.reserve(n); mc::trace("reserve(%d) -> %d", n, (int)k); m.last = 0; MC_CHECK(k <= rem && k <= (size_t)cap && k >= std::min((size_t)std::min(n, cap), rem), "%s: reserve(%d) returns %d with %d left and capacity %d", who, n, (int)k, (int)rem, cap); MC_CHECK(k >= buffered, "%s: reserve loses buffered bytes", who); buffered = k; }
        else if (o == 8) { size_t k = r.refill(); m.last = 0; mc::trace("refill -> %d", (int)k); MC_CHECK(k == std::min((size_t)cap, rem), "%s: refill returns %d with %d left and capacity %d", who, (int)k, (int)rem, cap); buffered = k; }
        else if (o <= 10) { int n = o == 9 ? 1 : 2; size_t k = r.skip(n); m.last = 0; mc::trace("skip(%d) -> %d", n, (int)k); MC_CHECK(k <= (size_t)n && k <= rem && k >= std::min((size_t)n, buffered), "%s: skip(%d) consumes %d with %d left and %d buffered", who, n, (int)k, (int)rem, (int)buffered); m.p += k; buffered = buffered > k ? buffered - k : 0; }
        else { int n = mc::choose(3); m.last = 0; const char* p = r.data(n); mc::trace("data(%d) -> %s", n, p ? "ok" : "null"); bool can = (size_t)n <= rem && n <= cap; MC_CHECK(!p == !can, "%s: data(%d) returns %s with %d left and capacity %d", who, n, p ? "a pointer" : "null", (int)rem, cap); if (!p) { if ((size_t)n > rem) m.failed = true; else m.loose = true; } else { if (n > 0) { MC_CHECK(!memcmp(p, s.data() + m.p, n), "%s: data(%d) points to other bytes", who, n); size_t k = r.reserve(0); MC_CHECK(!memcmp(p, s.data() + m.p, k) && p[k] == 0, "%s: the raw buffer is not the next %d bytes and a terminator", who, (int)k); buffered = k; } else { size_t k = r.reserve(0); MC_CHECK(k <= rem && !memcmp(p, s.data() + m.p, k) && p[k] == 0, "%s: the raw buffer is not the available %d bytes and a terminator", who, (int)k); buffered = k; }
                int take = mc::choose(n + 1); MC_CHECK(r.counter() == 0, "%s: counter starts at %d", who, r.counter()); r.counter() = take; r.advance(); MC_CHECK(r.counter() == 0, "%s: counter is not reset", who); m.p += take; buffered -= std::min(buffered, (size_t)take); } }
        flag(m, (bool)r, who);
    }
    drain(m, [&] { return r.read_char(); }, who);
}
static void fast(fast_read& r, const std::string& s, int cap, int depth) {
    const char* who = "fast_read"; M m{s, 0, false, false, 0};
    for (int i = 0; i < depth; i++) {
        mc::state(mc::H().str(who).str(s)(cap)(m.p)(m.last)); size_t rem = s.size() - m.p; int o = mc::choose(10); if (o == 9) break; mc::op();
        if (o == 0) do_char(m, r.read_char(), who);
        else if (o == 1) { if (!m.last) break; r.unread_char(); m.p--; m.last = 0; mc::trace("unread"); }
        else if (o <= 3) { int n = o == 2 ? 1 : cap; size_t k = r.reserve(n); m.last = 0; mc::trace("reserve(%d) -> %d", n, (int)k); MC_CHECK(k <= rem && k <= (size_t)cap && k >= std::min((size_t)std::min(n, cap), rem), "reserve(%d) returns %d with %d left", n, (int)k, (int)rem); MC_CHECK(r.available() == k, "available is %d after reserve returned %d", (int)r.available(), (int)k); }
        else if (o == 4) { size_t k = r.refill(); m.last = 0; mc::trace("refill -> %d", (int)k); MC_CHECK(k == std::min((size_t)cap, rem) && r.available() == k, "refill returns %d with %d left and capacity %d", (int)k, (int)rem, cap); }
        else if (o <= 7) { int n = o == 5 ? 1 : o == 6 ? 2 : cap + 1; m.last = 0; mc::trace("skip(%d)", n); r.skip(n); m.p += std::min((size_t)n, rem); }
        else { int n = mc::choose(3); m.last = 0; const char* p = r.data(n); bool can = (size_t)n <= rem && n <= cap; mc::trace("data(%d) -> %s", n, p ? "ok" : "null"); MC_CHECK(!p == !can, "data(%d) returns %s with %d left and capacity %d", n, p ? "a pointer" : "null", (int)rem, cap); if (p) { size_t k = r.available(); MC_CHECK(k >= (size_t)n && k <= rem && !memcmp(p, s.data() + m.p, k) && p[k] == 0, "the raw buffer is not the available %d bytes and a terminator", (int)k); int take = mc::choose(n + 1); r.counter() = take; r.advance(); MC_CHECK(r.counter() == 0, "counter is not reset"); m.p += take; } }
    }
    drain(m, [&] { return r.read_char(); }, who);
}
static void all_plain(int depth) {
    std::string s = content(mc::choose(10)); int k = mc::choose(6); mc::trace("bytes %s, reader %d", hex(s).c_str(), k);
    if (k == 0) { std::unique_ptr<char[]> heap(new char[s.size()]); memcpy(heap.get(), s.data(), s.size()); string_reader r(heap.get(), s.size()); plain(r, s, depth, "string_reader"); }
    else if (k == 1) { if (s.find('\0') != std::string::npos) return; string_reader r(s.c_str()); plain(r, s, depth, "string_reader(c string)"); }
    else if (k == 2) { std::istringstream is(s); stream_reader r(is); plain(r, s, depth, "stream_reader"); }
    else { File f(s, k == 3 ? 0 : k - 3, k == 4); file_reader r(f.f); plain(r, s, depth, "file_reader"); }
}
static void all_buffered(int cap, int depth) {
    std::string s = content(mc::choose(10)); int k = mc::choose(5); mc::trace("bytes %s, source %d, capacity %d", hex(s).c_str(), k, cap);
    if (k == 0) { string_reader q(s.data(), s.size()); buffered_reader r(q, cap); buffered(r, s, cap, depth, "buffered(string)"); }
    else if (k == 1) { short_reader q(s, 1); buffered_reader r(q, cap); buffered(r, s, cap, depth, "buffered(1 byte at a time)"); }
    else if (k == 2) { short_reader q(s, 2); simple_reader r(q, cap); buffered(r, s, cap, depth, "simple(2 bytes at a time)"); }
    else if (k == 3) { std::istringstream is(s); stream_reader q(is); buffered_reader r(q, cap); buffered(r, s, cap, depth, "buffered(stream)"); }
    else { File f(s, 1, true); file_reader q(f.f); buffered_reader r(q, cap); buffered(r, s, cap, depth, "buffered(file)"); }
}
static void all_patterns(int cap, int depth) { std::string s = content(7); short_reader q(s, -1); buffered_reader r(q, cap); buffered(r, s, cap, depth, "buffered(any short reads)"); }
static void stacked(int depth) { std::string s = content(mc::choose(4) + 6); int c1 = 1 + mc::choose(3), c2 = 1 + mc::choose(3); string_reader q(s.data(), s.size()); buffered_reader a(q, c1); buffered_reader r(a, c2); buffered(r, s, c2, depth, "buffered(buffered)"); }
static void all_fast(int cap, int depth) { std::string s = content(mc::choose(10)); int max = mc::choose(3); File f(s, max, max == 1); fast_read r(f.f, cap); mc::trace("bytes %s, capacity %d", hex(s).c_str(), cap); fast(r, s, cap, depth); }
static void byte_values() {
    int b = mc::choose(256), form = mc::choose(3); std::string s = form == 0 ? std::string(1, (char)b) : form == 1 ? std::string("x") + (char)b + "y" : std::string(2, (char)b); mc::state(mc::H()(b)(form)); mc::op();
    auto chars = [&](std::function<int()> rc, const char* who) { M m{s, 0, false, false, 0}; drain(m, rc, who); };
    { string_reader r(s.data(), s.size()); chars([&] { return r.read_char(); }, "string_reader"); } { std::istringstream is(s); stream_reader r(is); chars([&] { return r.read_char(); }, "stream_reader"); } { File f(s, 0, false); file_reader r(f.f); chars([&] { return r.read_char(); }, "file_reader"); }
    for (int cap = 1; cap <= 3; cap++) { { string_reader q(s.data(), s.size()); buffered_reader r(q, cap); chars([&] { return r.read_char(); }, "buffered_reader"); } { File f(s, 1, false); fast_read r(f.f, cap); chars([&] { return r.read_char(); }, "fast_read"); }
        { string_reader q(s.data(), s.size()); simple_reader r(q, cap); simple_reader_stream st(r); for (size_t i = 0; i < s.size(); i++) { char c = 1; st >> c; MC_CHECK(c == s[i] && (bool)st, "stream extraction of byte %02x gives %d", b, c); } }
        { File f(s, 1, false); fast_read r(f.f, cap); for (size_t i = 0; i < s.size(); i++) { char c = 1; r >> c; MC_CHECK(c == s[i], "fast extraction of byte %02x gives %d", b, c); } }
        char o[4]; { string_reader q(s.data(), s.size()); buffered_reader r(q, cap); size_t n = 0; while (n < s.size()) { size_t k = r.read(o + n, 1); MC_CHECK(k == 1, "block read of byte %02x", b); n++; } MC_CHECK(!memcmp(o, s.data(), s.size()), "block read changes byte %02x", b); } }
}
MC_SETUP(all) {
    mc::add("plain", [] { all_plain(mc::tier(5, 7)); }, 8);
    for (int cap : {1, 2, 3, 4, 64}) { mc::add("buffered_cap" + std::to_string(cap), [cap] { all_buffered(cap, mc::tier(4, 5)); }, 16); mc::add("fast_cap" + std::to_string(cap), [cap] { all_fast(cap, mc::tier(4, 6)); }, 16); }
    for (int cap : {1, 2, 3}) mc::add("short_reads_cap" + std::to_string(cap), [cap] { all_patterns(cap, mc::tier(4, 5)); }, 16);
    mc::add("stacked", [] { stacked(mc::tier(3, 4)); }, 16); mc::add("byte_values", byte_values, 4);
}
