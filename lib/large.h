// Orders and sequences for the large families: every member is listed by a small index, nothing is random.
#pragma once
#include <stdint.h>
#include <vector>
#include <algorithm>
namespace lg {
struct Lcg { uint64_t s; explicit Lcg(uint64_t s) : s(s * 0x9E3779B97F4A7C15ull + 12345) {} uint32_t operator()() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(s >> 33); } int below(int n) { return (int)(operator()() % (uint32_t)n); } };
enum { NORDERS = 7 };
// a permutation of 0..n-1: ascending, descending, from both ends, from the middle outwards, strided, two shuffles
inline std::vector<int> order(int n, int kind) {
    std::vector<int> v; if (n <= 0) return v; if (kind == 0) for (int i = 0; i < n; i++) v.push_back(i); else if (kind == 1) for (int i = n; i-- > 0;) v.push_back(i); else if (kind == 2) for (int l = 0, r = n - 1; l <= r; l++, r--) { v.push_back(l); if (l < r) v.push_back(r); } else if (kind == 3) { for (int l = (n - 1) / 2, r = l + 1; l >= 0 || r < n; l--, r++) { if (l >= 0) v.push_back(l); if (r < n) v.push_back(r); } } else if (kind == 4) { for (int s = 0; s < 7; s++) for (int i = s; i < n; i += 7) v.push_back(i); } else { for (int i = 0; i < n; i++) v.push_back(i); Lcg g((uint64_t)kind * 1000 + n); for (int i = n; i > 1; i--) std::swap(v[i - 1], v[g.below(i)]); }
    return v;
}
}
