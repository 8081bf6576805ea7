// Listed families of large graphs (see large.h); a member is (size, shape, numbering).
#pragma once
#include "graphs.h"
#include "large.h"
namespace gr {
enum { NBIG = 12 };
// arcs of the shape; an undirected member is symmetric
inline mat big(int n, int shape, bool directed, int numbering) {
    lg::Lcg g((uint64_t)n * 1000 + shape * 31 + numbering * 7 + directed); mat m = zero(n); auto arc = [&](int u, int v) { if (u == v || u < 0 || v < 0 || u >= n || v >= n) return; m[u][v] = 1; if (!directed) m[v][u] = 1; };
    int w = 1; while (w * w < n) w++; auto some = [&](int k) { while (k-- > 0) arc(g.below(n), g.below(n)); };
    switch (shape) {
    case 0: for (int i = 1; i < n; i++) arc(i - 1, i); break;
    case 1: for (int i = 0; i < n; i++) arc(i, (i + 1) % n); break;
    case 2: for (int i = 1; i < n; i++) arc(i % 3 ? 0 : i, i % 3 ? i : 0); break;
    case 3: for (int i = 0; i < n; i++) { if ((i + 1) % w) arc(i, i + 1); arc(i, i + w); } break;
    case 4: some(n + n / 8); break;
    case 5: some(5 * n / 2); break;
    case 6: some(std::min(n * n / 5, 12 * n)); break;
    case 7: for (int i = 0, k = 0; i < n; k++) { int l = std::min(n - i, 2 + k % 6); for (int j = 0; j < l; j++) arc(i + j, i + (j + 1) % l); if (k % 2 == 0) arc(i + l / 2, i); if (i + l < n && k % 5 != 4) arc(i + k % l, i + l); i += l; } break; // rings joined by single arcs
    case 8: for (int k = 0; k < 2 * n; k++) { int u = g.below(n), v = g.below(n); arc(std::min(u, v), std::max(u, v)); } break; // acyclic
    case 9: for (int i = 1; i < n; i++) { int p = g.below(i); if (g.below(3)) arc(p, i); else arc(i, p); } some(n / 10); break;
    case 10: { int l = std::max(2, n / 6); for (int u = 0; u + 6 < n; u++) for (int k = 0; k < 3; k++) { int v = (u / 6 + 1) * 6 + g.below(6); arc(u, v); } if (n > 20) arc(l, 1); break; }
    case 11: { int l = std::max(3, n / 4); for (int i = 0; i < n; i++) for (int k = 0; k < 2; k++) { int b = i / l * l, c = std::min(l, n - b); arc(i, b + g.below(c)); } break; } // separate pieces
    }
    return relabel(m, lg::order(n, numbering));
}
}
