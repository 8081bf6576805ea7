// byte sources and sinks for the io checks: a FILE* with short reads, a reader with short reads, recording sinks
#pragma once
#include <stdio.h>
#include <string.h>
#include <functional>
#include <string>
#include <algorithm>
struct Cookie { std::string data; size_t pos; int max; std::string sink; }; // max: bytes per read call (0: everything)
inline ssize_t ck_read(void* c, char* b, size_t n) { Cookie* k = (Cookie*)c; size_t r = std::min(n, k->data.size() - k->pos); if (k->max > 0) r = std::min(r, (size_t)k->max); memcpy(b, k->data.data() + k->pos, r); k->pos += r; return (ssize_t)r; }
inline ssize_t ck_write(void* c, const char* b, size_t n) { Cookie* k = (Cookie*)c; k->sink.append(b, n); return (ssize_t)n; }
struct File { // a FILE* over memory
    Cookie k; FILE* f; File(const std::string& s, int max, bool unbuffered, const char* mode = "r") : k{s, 0, max, ""} { cookie_io_functions_t io = {ck_read, ck_write, 0, 0}; f = fopencookie(&k, mode, io); if (unbuffered) setvbuf(f, 0, _IONBF, 0); else setvbuf(f, buf, _IOFBF, sizeof buf); }
    ~File() { fclose(f); }
    char buf[64];
};
