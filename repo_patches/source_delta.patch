From 679fb1a41bc92fa92dc09e09bac322024cd0d6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 01/97] fix: release every node when clearing a
 binary_search_tree

clear() freed only the root node: all other nodes leaked, and on an empty
tree the nil node itself was freed and then used.
---
 include/altruct/structure/container/binary_search_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/binary_search_tree.h b/include/altruct/structure/container/binary_search_tree.h
index f714a76..e5af415 100644
--- a/include/altruct/structure/container/binary_search_tree.h
+++ b/include/altruct/structure/container/binary_search_tree.h
@@ -335,7 +335,7 @@ public: // constructor & size
     }
 
     void clear() {
-        _free(root_ptr());
+        _free_all(root_ptr());
         nil->left = nil;
         nil->right = nil;
     }
-- 
2.43.0


From 7382d684bee635056b9f0c90b3135e7a32054f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 02/97] fix: treap range erase returns the end of the range

Erasing an empty range (or by a missing key with duplicates stored)
returned an uninitialized iterator; binary_search_tree returns the end.
---
 include/altruct/structure/container/treap.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/altruct/structure/container/treap.h b/include/altruct/structure/container/treap.h
index 954ac88..d8f0d07 100644
--- a/include/altruct/structure/container/treap.h
+++ b/include/altruct/structure/container/treap.h
@@ -253,9 +253,8 @@ public: // query & update
     }
 
     iterator erase(const_iterator b, const_iterator e, int cnt = std::numeric_limits<int>::max()) {
-        iterator res;
-        while (b != e) res = erase(b++, cnt);
-        return res;
+        while (b != e) erase(b++, cnt);
+        return tree.remove_const(b.it);
     }
 
     iterator erase(const_iterator it, int cnt = std::numeric_limits<int>::max()) {
-- 
2.43.0


From 6a0f1412fe5f9f58a5c660f2a104f45001d74072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:16 +0000
Subject: [PATCH 03/97] fix: bounded_contiguous_allocator copies and swaps own
 their storage

The implicit copy constructor and assignment copied the raw pointers, so
copying, moving or swapping a container using this allocator led to use
after free and double free.
---
 .../container/bounded_contiguous_allocator.h  | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/altruct/structure/container/bounded_contiguous_allocator.h b/include/altruct/structure/container/bounded_contiguous_allocator.h
index 89206cf..c433bb8 100644
--- a/include/altruct/structure/container/bounded_contiguous_allocator.h
+++ b/include/altruct/structure/container/bounded_contiguous_allocator.h
@@ -31,6 +31,29 @@ struct bounded_contiguous_allocator {
     bounded_contiguous_allocator(size_t capacity = 1) NOEXCEPT
         : capacity_(capacity), data_(nullptr), available_(capacity), ptrs_(nullptr) {}
 
+    // a copy provides its own elements; only the capacity gets copied
+    bounded_contiguous_allocator(const bounded_contiguous_allocator& rhs) NOEXCEPT
+        : bounded_contiguous_allocator(rhs.capacity_) {
+    }
+
+    bounded_contiguous_allocator(bounded_contiguous_allocator&& rhs) NOEXCEPT
+        : bounded_contiguous_allocator(rhs.capacity_) {
+        swap(rhs);
+    }
+
+    // copy or move, depending on how the argument gets constructed
+    bounded_contiguous_allocator& operator= (bounded_contiguous_allocator rhs) NOEXCEPT {
+        swap(rhs);
+        return *this;
+    }
+
+    void swap(bounded_contiguous_allocator& rhs) NOEXCEPT {
+        std::swap(capacity_, rhs.capacity_);
+        std::swap(data_, rhs.data_);
+        std::swap(available_, rhs.available_);
+        std::swap(ptrs_, rhs.ptrs_);
+    }
+
     ~bounded_contiguous_allocator() NOEXCEPT{
         clear();
     }
-- 
2.43.0


From f1df1748b044e4ed945ce3fd58a43bdb2c45f9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 04/97] fix: bit_vector shifts across words and past the end

---
 include/altruct/structure/container/bit_vector.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/altruct/structure/container/bit_vector.h b/include/altruct/structure/container/bit_vector.h
index e87fc01..46e7252 100644
--- a/include/altruct/structure/container/bit_vector.h
+++ b/include/altruct/structure/container/bit_vector.h
@@ -87,7 +87,7 @@ public:
 
     bit_vector& operator >>= (int cnt) {
         size_t wsz = words.size() - 1; // there is always one extra 0-word at the end
-        size_t q = cnt / L; int r = cnt % L;
+        size_t q = std::min(size_t(cnt / L), wsz); int r = cnt % L;
         for (size_t i = 0; i < wsz - q; i++) {
             words[i] = word_at(i + q, r);
         }
@@ -99,14 +99,15 @@ public:
 
     bit_vector& operator <<= (int cnt) {
         size_t wsz = words.size() - 1; // there is always one extra 0-word at the end
-        size_t q = cnt / L; int r = cnt % L;
-        for (size_t i = q + 1; i < wsz; i++) {
+        size_t q = std::min(size_t(cnt / L), wsz); int r = cnt % L;
+        for (size_t i = wsz; i-- > q + 1;) { // from the back, as the words being read must not be overwritten yet
             words[i] = (r == 0) ? words[i - q] : ((words[i - q - 1] >> (L - r)) | (words[i - q] << r));
         }
         words[q] = (words[0] << r); // words[-1] is considered to be 0
         for (size_t i = 0; i < q; i++) {
             words[i] = W0;
         }
+        resize(sz); // clear the bits that got shifted out past the end
         return *this;
     }
 
-- 
2.43.0


From 92e372bdea9d287a4f748943e09338f9ad1995da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 05/97] fix: assigning one bit_vector element to another copies
 the bit

---
 include/altruct/structure/container/bit_vector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/bit_vector.h b/include/altruct/structure/container/bit_vector.h
index 46e7252..e7b4d4b 100644
--- a/include/altruct/structure/container/bit_vector.h
+++ b/include/altruct/structure/container/bit_vector.h
@@ -32,7 +32,9 @@ public:
         bit_vector* owner;
         bit_proxy(bit_vector* owner, size_t pos) : pos(pos), owner(owner) {}
         operator int() { return owner->bit_at(pos); }
-        bit_proxy& operator = (int val) { owner->set(pos, val & 1); return *this; }
+        bit_proxy(const bit_proxy&) = default;
+        bit_proxy& operator = (int val) { owner->set(pos, val & 1); return *this; }
+        bit_proxy& operator = (const bit_proxy& rhs) { return *this = rhs.owner->bit_at(rhs.pos); }
         bit_proxy& operator ^= (int val) { if (val == 1) owner->set(pos, -1); return *this; }
         bit_proxy& operator |= (int val) { if (val == 1) owner->set(pos, 1); return *this; }
         bit_proxy& operator &= (int val) { if (val == 0) owner->set(pos, 0); return *this; }
-- 
2.43.0


From 018c13e22396cad69bb4fecedc6a5fa91c415d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:48 +0000
Subject: [PATCH 06/97] fix: erased or reset map entries do not keep their old
 value

---
 include/altruct/structure/container/lohi_map.h |  2 +-
 include/altruct/structure/container/sqrt_map.h | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/altruct/structure/container/lohi_map.h b/include/altruct/structure/container/lohi_map.h
index c989713..3bf8130 100644
--- a/include/altruct/structure/container/lohi_map.h
+++ b/include/altruct/structure/container/lohi_map.h
@@ -65,7 +65,7 @@ public:
     }
 
     int erase(const I& k) {
-        return (k <= max_lo_key) ? get_and_set(cnt_lo[k], 0) : (int)tbl_hi.erase(k);
+        return (k <= max_lo_key) ? (tbl_lo[k] = T(), get_and_set(cnt_lo[k], 0)) : (int)tbl_hi.erase(k);
     }
 };
 
diff --git a/include/altruct/structure/container/sqrt_map.h b/include/altruct/structure/container/sqrt_map.h
index dc85e06..6be69d1 100644
--- a/include/altruct/structure/container/sqrt_map.h
+++ b/include/altruct/structure/container/sqrt_map.h
@@ -60,7 +60,7 @@ public:
     void reset_max(I max_key = 0) {
         this->max_key = max_key;
         cnt_hi.assign(max_key / max_lo_key + 1, 0);
-        tbl_hi.resize(max_key / max_lo_key + 1);
+        tbl_hi.assign(max_key / max_lo_key + 1, T());
     }
 
     int count(const I& k) const {
@@ -160,7 +160,14 @@ public:
     }
 
     int erase(const I& k) {
-        return (k <= max_lo_key) ? get_and_set(cnt_lo[k], 0) : get_and_set(cnt_hi[max_key / k], 0);
+        if (k <= max_lo_key) {
+            tbl_lo[k] = T();
+            return get_and_set(cnt_lo[k], 0);
+        } else {
+            I i = max_key / k;
+            tbl_hi[i] = T();
+            return get_and_set(cnt_hi[i], 0);
+        }
     }
 };
 
-- 
2.43.0


From 34db2b8c245a2e0801a16f80e2319488b7c1d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:48 +0000
Subject: [PATCH 07/97] fix: lohi_map::at throws for absent low keys as it does
 for high keys

---
 include/altruct/structure/container/lohi_map.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/altruct/structure/container/lohi_map.h b/include/altruct/structure/container/lohi_map.h
index 3bf8130..4fda403 100644
--- a/include/altruct/structure/container/lohi_map.h
+++ b/include/altruct/structure/container/lohi_map.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <vector>
+#include <stdexcept>
 #include <unordered_map>
 
 namespace altruct {
@@ -39,11 +40,15 @@ public:
         return (k <= max_lo_key) ? cnt_lo[k] : (int)tbl_hi.count(k);
     }
 
+    // checked element access, throws if it doesn't exist
     const T& at(const I& k) const {
+        if (k <= max_lo_key && !cnt_lo.at(k)) throw std::out_of_range("invalid lohi_map<I, T> key");
         return (k <= max_lo_key) ? tbl_lo.at(k) : tbl_hi.at(k);
     }
 
+    // checked element access, throws if it doesn't exist
     T& at(const I& k) {
+        if (k <= max_lo_key && !cnt_lo.at(k)) throw std::out_of_range("invalid lohi_map<I, T> key");
         return (k <= max_lo_key) ? tbl_lo.at(k) : tbl_hi.at(k);
     }
 
-- 
2.43.0


From 9cf82daf5b69039ee3f35367813654f6ea422eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 08/97] fix: prim_spanning_tree does not reattach nodes that
 are already in the tree

---
 .../include/altruct/algorithm/graph/prim_spanning_tree.h      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h b/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
index 0b2853b..f03be76 100644
--- a/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
+++ b/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
@@ -24,14 +24,16 @@ template<typename E, typename W>
 std::vector<E> prim_spanning_tree(const graph<E>& g, int root, W inf) {
     std::vector<E> res(g.size(), { -1, inf });
     res[root] = { root, 0 };
+    std::vector<char> in_tree(g.size()); // nodes in the tree must not be reattached
     std::set<std::pair<W, int>> q{ { 0, root } };
     while (!q.empty()) {
         int u = q.begin()->second;
         q.erase(q.begin());
+        in_tree[u] = 1;
         for (const auto& e : g[u]) {
             int v = e.v;
             auto d_new = e.w;
-            if (d_new < res[v].w && res[u].v != v) {
+            if (d_new < res[v].w && !in_tree[v]) {
                 q.erase({ res[v].w, v });
                 res[v] = { u, d_new };
                 q.insert({ res[v].w, v });
-- 
2.43.0


From 7c8b25719ee441291a2c27b1e8f220ee25581868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 09/97] fix: bipartite_matching selects only one of parallel
 edges

---
 .../include/altruct/algorithm/graph/bipartite_matching.h     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/bipartite_matching.h b/experimental/include/altruct/algorithm/graph/bipartite_matching.h
index c0c51da..0f0459a 100644
--- a/experimental/include/altruct/algorithm/graph/bipartite_matching.h
+++ b/experimental/include/altruct/algorithm/graph/bipartite_matching.h
@@ -29,7 +29,10 @@ std::vector<E> bipartite_matching(int nodes, const std::vector<E>& edges) {
     d.calc_max_flow(src, sink);
     std::vector<E> selected;
     for (const auto& e : edges) {
-        if (d.flow[e.u][e.v]) selected.push_back(e);
+        if (d.flow[e.u][e.v]) {
+            selected.push_back(e);
+            d.flow[e.u][e.v] = 0; // parallel edges must not be selected too
+        }
     }
     return selected;
 }
-- 
2.43.0


From 4fa264dec637e0903cee153cb402608227522c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 10/97] fix: heavy_light_decomposition reorders whole edges
 instead of only their ends

---
 .../include/altruct/algorithm/graph/heavy_light_decomposition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h b/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
index 6ea2c31..089127c 100644
--- a/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
+++ b/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
@@ -58,7 +58,7 @@ public:
                     heavy_i = i, heavy_size = sizes[v];
                 }
             }
-            std::swap(g[u][0].v, g[u][heavy_i].v);
+            std::swap(g[u][0], g[u][heavy_i]);
         }
         int pos = 0, par = -2;
         iterative_dfs(g, [&](int root, int parent, int node, int depth) {
-- 
2.43.0


From 7a63c75e5ba5da5bf572e9703dc11d30103119d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:14 +0000
Subject: [PATCH 11/97] fix: hungarian qualifies std::min and std::max so that
 it can be instantiated

---
 experimental/include/altruct/algorithm/graph/hungarian.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/include/altruct/algorithm/graph/hungarian.h b/experimental/include/altruct/algorithm/graph/hungarian.h
index 54e2136..d9fd7b0 100644
--- a/experimental/include/altruct/algorithm/graph/hungarian.h
+++ b/experimental/include/altruct/algorithm/graph/hungarian.h
@@ -114,7 +114,7 @@ private:
         for (x = 0; x < n; x++) {
             lx[x] = cost(x, 0);
             for (y = 0; y < n; y++) {
-                lx[x] = max(lx[x], cost(x, y));
+                lx[x] = std::max(lx[x], cost(x, y));
             }
         }
 
@@ -158,7 +158,7 @@ private:
                 for (y = 0; y < n; y++)                              // initial delta (instead of INF)
                     if (!T[y]) { delta = slack[y]; break; }
                 for (y = 0; y < n; y++)                              // calculate delta using slack
-                    if (!T[y]) delta = min(delta, slack[y]);
+                    if (!T[y]) delta = std::min(delta, slack[y]);
                 for (y = 0; y < n; y++)                              // update slack array
                     if (!T[y]) slack[y] -= delta;
                 for (x = 0; x < n; x++)                              // update X labels
-- 
2.43.0


From 3fc09713b9fb859341dd04385ddbf1d39638ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:21 +0000
Subject: [PATCH 12/97] fix: suffix_array accepts an empty text

---
 experimental/include/altruct/structure/container/suffix_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/structure/container/suffix_array.h b/experimental/include/altruct/structure/container/suffix_array.h
index da69bfc..65149bf 100644
--- a/experimental/include/altruct/structure/container/suffix_array.h
+++ b/experimental/include/altruct/structure/container/suffix_array.h
@@ -45,7 +45,7 @@ private:
 
     template<typename It>
     void build_suffix_array(It begin, It end) {
-        alpha_t max_elem = *std::max_element(begin, end);
+        alpha_t max_elem = (begin == end) ? alpha_t(0) : *std::max_element(begin, end);
         build_suffix_array(begin, end, (index_t)max_elem + 1);
     }
 
-- 
2.43.0


From aeed085720e57d90d5db5369fdd4281997905598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:01 +0000
Subject: [PATCH 13/97] fix: suffix_array does not read past the end of the
 text

---
 experimental/include/altruct/structure/container/suffix_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/structure/container/suffix_array.h b/experimental/include/altruct/structure/container/suffix_array.h
index 65149bf..8f5809d 100644
--- a/experimental/include/altruct/structure/container/suffix_array.h
+++ b/experimental/include/altruct/structure/container/suffix_array.h
@@ -108,7 +108,7 @@ private:
                 diff = true;
             } else {
                 for (index_t j = pos, k = prev_pos;; j++, k++) {
-                    if (str[j] != str[k] || types[j] != types[k]) {
+                    if (j == n || k == n || str[j] != str[k] || types[j] != types[k]) {
                         diff = true;
                         break;
                     } else if (j != pos && ((types[j] && !types[j - 1]) || (types[k] && !types[k - 1]))) {
-- 
2.43.0


From 93d8ad8bc03ad17666eb38ef8907ce971ae56a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:07 +0000
Subject: [PATCH 14/97] fix: polynomial hashes of negative elements are
 canonical residues

---
 include/altruct/algorithm/hash/polynomial_hash.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/altruct/algorithm/hash/polynomial_hash.h b/include/altruct/algorithm/hash/polynomial_hash.h
index e679f7a..a6807e7 100644
--- a/include/altruct/algorithm/hash/polynomial_hash.h
+++ b/include/altruct/algorithm/hash/polynomial_hash.h
@@ -38,7 +38,7 @@ public:
 
     I h;
 
-    polynomial_hash1(I h = 0) : h(h) {}
+    polynomial_hash1(I h = 0) : h(h % M < 0 ? h % M + M : h % M) {}
     polynomial_hash1 clone() const { return polynomial_hash1(*this); }
     bool operator < (const polynomial_hash1& rhs) const { return h < rhs.h; }
     bool operator == (const polynomial_hash1& rhs) const { return h == rhs.h; }
@@ -78,8 +78,9 @@ public:
     static std::vector<I> W[K];
     static std::vector<I> WI[K];
 
-    static I mul(I a, I b, I m) { return (I)((a * (IT)b) % m); }
-    static I mul(I s, I a, I b, I m) { return (I)((s + a * (IT)b) % m); }
+    static I mod(IT v, I m) { v %= m; return (I)(v < 0 ? v + m : v); }
+    static I mul(I a, I b, I m) { return mod(a * (IT)b, m); }
+    static I mul(I s, I a, I b, I m) { return mod(s + a * (IT)b, m); }
 
     static void _ensure(std::vector<I>& w, size_t sz, I b, I m) {
         size_t i0 = w.size();
@@ -154,7 +155,7 @@ public:
     polynomial_hash operator + (I rhs) const { return clone() += rhs; }
     polynomial_hash& operator += (I rhs) {
         for (int k = 0; k < K; k++) {
-            h[k] = (h[k] + rhs) % M[k];
+            h[k] = mod((IT)h[k] + rhs, M[k]);
         }
         return *this;
     }
@@ -170,7 +171,7 @@ public:
     polynomial_hash operator - (I rhs) const { return clone() -= rhs; }
     polynomial_hash& operator -= (I rhs) {
         for (int k = 0; k < K; k++) {
-            h[k] = (h[k] + M[k] - rhs) % M[k];
+            h[k] = mod((IT)h[k] - rhs, M[k]);
         }
         return *this;
     }
@@ -226,7 +227,7 @@ public:
     polynomial_hash& sub_shr(I rhs, size_t pos) {
         ensure(pos + 1);
         for (int k = 0; k < K; k++) {
-            h[k] = mul(h[k] + M[k] - rhs, WI[k][pos], M[k]);
+            h[k] = mul(mod((IT)h[k] - rhs, M[k]), WI[k][pos], M[k]);
         }
         return *this;
     }
-- 
2.43.0


From 2f60c0300221eb532597603c6fbd2dcd0a1ccb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:07 +0000
Subject: [PATCH 15/97] fix: cumulative_hash::assign replaces the previous
 contents

---
 include/altruct/algorithm/hash/polynomial_hash.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/algorithm/hash/polynomial_hash.h b/include/altruct/algorithm/hash/polynomial_hash.h
index a6807e7..fbbf5c4 100644
--- a/include/altruct/algorithm/hash/polynomial_hash.h
+++ b/include/altruct/algorithm/hash/polynomial_hash.h
@@ -279,6 +279,7 @@ public:
     void assign(It begin, It end) {
         HASH h;
         size_t pos = 0;
+        vh.clear();
         h.ensure(std::distance(begin, end));
         for (It it = begin; it != end; ++it) {
             h.add(*it, pos++);
-- 
2.43.0


From 1d6e0adede7e5ad69bc442096f080cb7eccf75d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:02 +0000
Subject: [PATCH 16/97] fix: parallel_execute serialises the calls of
 create_worker

---
 include/altruct/concurrency/concurrency.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/altruct/concurrency/concurrency.h b/include/altruct/concurrency/concurrency.h
index b42992a..f94422a 100644
--- a/include/altruct/concurrency/concurrency.h
+++ b/include/altruct/concurrency/concurrency.h
@@ -51,10 +51,13 @@ namespace concurrency {
  */
 template<typename RESULT_COLLECTOR, typename JOB_PROVIDER, typename WORKER_PROVIDER>
 void parallel_execute(RESULT_COLLECTOR& result_collector, JOB_PROVIDER& job_provider, WORKER_PROVIDER& worker_provider, int num_threads) {
+    std::mutex worker_provider_mutex;
     std::mutex job_provider_mutex;
     std::mutex result_collector_mutex;
     auto func = [&]() {
+        std::unique_lock<std::mutex> worker_provider_lock(worker_provider_mutex);
         auto worker = worker_provider.create_worker();
+        worker_provider_lock.unlock();
         while (true) {
             std::unique_lock<std::mutex> job_provider_lock(job_provider_mutex);
             if (!job_provider.has_next_job()) break;
-- 
2.43.0


From 7088fba18f79ef5dcf1bfa97ef08606f6fc5ae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:57 +0000
Subject: [PATCH 17/97] fix: range_job_provider does not overflow near the
 type's maximum

---
 include/altruct/concurrency/concurrency.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/altruct/concurrency/concurrency.h b/include/altruct/concurrency/concurrency.h
index f94422a..8b8465d 100644
--- a/include/altruct/concurrency/concurrency.h
+++ b/include/altruct/concurrency/concurrency.h
@@ -102,7 +102,13 @@ struct range_job_provider {
     I begin, end, len;
     range_job_provider(I begin, I end, I len) : begin(begin), end(end), len(len) {}
     bool has_next_job() { return begin < end; }
-    std::pair<I, I> next_job() { begin += len; return{ begin - len, std::min(begin, end) }; }
+    std::pair<I, I> next_job() {
+        I b = begin;
+        // note: `begin + len` and `end - begin` may both overflow, so check on the safe side of 0
+        bool last = (b < 0) ? !(b + len < end) : !(len < end - b);
+        begin = last ? end : b + len;
+        return{ b, begin };
+    }
 };
 
 
-- 
2.43.0


From c3072ef5670f92209109fde6aa7f367f8b4f45a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:10 +0000
Subject: [PATCH 18/97] fix: readers return characters as unsigned char so that
 0xff is not taken for the end of input

---
 include/altruct/io/fast_io.h | 2 +-
 include/altruct/io/reader.h  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index dfc0eef..c513919 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -115,7 +115,7 @@ public:
             refill();
             if (ptr >= end) return -1;
         }
-        return *ptr++;
+        return (unsigned char)*ptr++;
     }
 
     // Reads a string of characters until a whitespace.
diff --git a/include/altruct/io/reader.h b/include/altruct/io/reader.h
index 190d3e5..06e9c7a 100644
--- a/include/altruct/io/reader.h
+++ b/include/altruct/io/reader.h
@@ -108,7 +108,7 @@ public:
             read_failed = true;
             return -1;
         }
-        return in[pos++];
+        return (unsigned char)in[pos++];
     }
 
     size_t read(char* buffer, size_t count) override {
@@ -232,7 +232,7 @@ public:
             read_failed = true;
             return -1;
         }
-        return *ptr++;
+        return (unsigned char)*ptr++;
     }
 
     size_t read(char* buffer, size_t count) override {
@@ -268,7 +268,7 @@ public:
     std::string read_line(char delimiter = '\n') {
         std::string s;
         int c = read_char();
-        while (c != delimiter && c != -1) {
+        while (c != (unsigned char)delimiter && c != -1) {
             s.push_back((char)c);
             c = read_char();
         }
-- 
2.43.0


From 1e8baa2751f025cf7890fce320d5d7bfe180f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:28 +0000
Subject: [PATCH 19/97] fix: the raw buffer of readers is always NUL-terminated

---
 include/altruct/io/fast_io.h | 2 ++
 include/altruct/io/reader.h  | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index c513919..266cfb0 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -38,6 +38,7 @@ public:
         buff = new char[capacity+1];
         buff[capacity] = 0;
         ptr = end = buff;
+        *end = 0;
         cnt = 0;
     }
 
@@ -60,6 +61,7 @@ public:
             available += len;
             end += len;
         }
+        *end = 0;
         return available;
     }
 
diff --git a/include/altruct/io/reader.h b/include/altruct/io/reader.h
index 06e9c7a..0754dc7 100644
--- a/include/altruct/io/reader.h
+++ b/include/altruct/io/reader.h
@@ -149,6 +149,7 @@ public:
         buff = new char[capacity + 1];
         buff[capacity] = 0;
         ptr = end = buff;
+        *end = 0;
     }
 
     ~buffered_reader() {
-- 
2.43.0


From 2dd7c8a457ecdd088cda1b13f0d6a28bb797f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:28 +0000
Subject: [PATCH 20/97] fix: fast_read::skip does not run past the end of the
 buffer

---
 include/altruct/io/fast_io.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index 266cfb0..b20f2c9 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -100,7 +100,11 @@ public:
 
     // Skips `count` characters.
     void skip(size_t count) {
-        ptr += count;
+        while (count > 0 && (available() > 0 || refill() > 0)) {
+            size_t len = std::min(count, available());
+            ptr += len;
+            count -= len;
+        }
     }
 
     // Unreads the last read character.
-- 
2.43.0


From 100011eae723529b9979ae8a5a97e5ff8b744ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:47 +0000
Subject: [PATCH 21/97] fix: token reader does not append a token for empty
 input or a trailing delimiter

---
 include/altruct/io/stream_tokenizer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/altruct/io/stream_tokenizer.h b/include/altruct/io/stream_tokenizer.h
index 2bdd4e5..1a8e119 100644
--- a/include/altruct/io/stream_tokenizer.h
+++ b/include/altruct/io/stream_tokenizer.h
@@ -99,6 +99,10 @@ std::istream& operator>>(std::istream& is, altruct::io::stream_tokenizer::tokens
     T t; D d;
     ts.v.clear();
     while (is) {
+        if ((is >> std::ws).eof()) {
+            is.setstate(std::ios_base::failbit);
+            break;
+        }
         is >> t;
         ts.v.push_back(t);
         bool wasSkipWs = is.flags() & std::ios_base::skipws;
-- 
2.43.0


From 68a7bef03c9259ab599d1269660f7a9e18d3e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:03 +0000
Subject: [PATCH 22/97] fix: writers print the minimum value of a signed type

---
 include/altruct/io/fast_io.h | 9 +++++----
 include/altruct/io/writer.h  | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index b20f2c9..fe56076 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -334,12 +334,13 @@ public:
     fast_write& write_integral_number(I d, int len = 1) {
         int i;
         static char tc[50];
-        if (d < 0) {
-            d = -d;
+        bool neg = (d < 0);
+        if (neg) {
             write_char('-');
         }
-        for (i = 0; (d > 0 || i < len) && i < sizeof(tc); i++) {
-            tc[i] = (d % 10) + '0';
+        for (i = 0; (d != 0 || i < len) && i < sizeof(tc); i++) {
+            int r = (int)(d % 10); // `-d` would overflow for the minimum value
+            tc[i] = (neg ? -r : r) + '0';
             d /= 10;
         }
         while (i > 0) {
diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index 1766d93..656f116 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -246,12 +246,13 @@ public:
     simple_writer& write_integral_number(I d, int len = 1) {
         int i;
         static char tc[50];
-        if (d < 0) {
-            d = -d;
+        bool neg = (d < 0);
+        if (neg) {
             write_char('-');
         }
-        for (i = 0; (d > 0 || i < len) && i < sizeof(tc); i++) {
-            tc[i] = (d % 10) + '0';
+        for (i = 0; (d != 0 || i < len) && i < sizeof(tc); i++) {
+            int r = (int)(d % 10); // `-d` would overflow for the minimum value
+            tc[i] = (neg ? -r : r) + '0';
             d /= 10;
         }
         while (i > 0) {
-- 
2.43.0


From 84954b9c0c1ca69090c4a442a0c67c5a2c50bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:03 +0000
Subject: [PATCH 23/97] fix: writers handle the rounding carry of floating
 point numbers

---
 include/altruct/io/fast_io.h | 10 +++++++++-
 include/altruct/io/writer.h  | 12 ++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index fe56076..be8ac11 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -362,13 +362,21 @@ public:
             e = std::max(g, 0) + 1;
         }
         f += pow(F(10), -precision) / 2; // round
+        if (f >= pow(F(10), e)) { // carry into a new digit
+            if (scientific) {
+                f /= 10;
+                g++;
+            } else {
+                e++;
+            }
+        }
         while (e > -precision) {
             if (e == 0) {
                 write_char('.');
             }
             e--;
             F w = pow(F(10), e);
-            int d = (int)(f / w);
+            int d = std::min((int)(f / w), 9);
             f -= w * d;
             write_char(d + '0');
         };
diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index 656f116..71ff0e0 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -273,14 +273,22 @@ public:
         } else {
             e = std::max(g, 0) + 1;
         }
-        f += pow(F(10), -precision) / 2; // round
+        f += pow(F(10), -precision) / 2; // round
+        if (f >= pow(F(10), e)) { // carry into a new digit
+            if (scientific) {
+                f /= 10;
+                g++;
+            } else {
+                e++;
+            }
+        }
         while (e > -precision) {
             if (e == 0) {
                 write_char('.');
             }
             e--;
             F w = pow(F(10), e);
-            int d = (int)(f / w);
+            int d = std::min((int)(f / w), 9);
             f -= w * d;
             write_char(d + '0');
         };
-- 
2.43.0


From e4598dc3a117ef7b050304deb80936402a2c2f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:03 +0000
Subject: [PATCH 24/97] fix: fast_write writes strings that contain a NUL
 character completely

---
 include/altruct/io/fast_io.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index be8ac11..cd80113 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -327,7 +327,10 @@ public:
     }
 
     fast_write& write_string(const std::string& s) {
-        return write_string(s.c_str());
+        for (char c : s) {
+            write_char(c);
+        }
+        return *this;
     }
 
     template<typename I>
-- 
2.43.0


From 050143442e19d9e3469eb515d4e2cfe2b7a98191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:55 +0000
Subject: [PATCH 25/97] fix: writers keep digits in range when the remainder
 becomes negative by rounding

---
 include/altruct/io/fast_io.h | 2 +-
 include/altruct/io/writer.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index cd80113..512ab74 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -379,7 +379,7 @@ public:
             }
             e--;
             F w = pow(F(10), e);
-            int d = std::min((int)(f / w), 9);
+            int d = std::max(std::min((int)(f / w), 9), 0);
             f -= w * d;
             write_char(d + '0');
         };
diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index 71ff0e0..657cf8a 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -288,7 +288,7 @@ public:
             }
             e--;
             F w = pow(F(10), e);
-            int d = std::min((int)(f / w), 9);
+            int d = std::max(std::min((int)(f / w), 9), 0);
             f -= w * d;
             write_char(d + '0');
         };
-- 
2.43.0


From ce7a846626780429c01fc29fe638accf759d5543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:41 +0000
Subject: [PATCH 26/97] fix: shunting yard does not pop binary operators before
 their right operand starts with a prefix operator

---
 include/altruct/algorithm/parser/shunting_yard.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/parser/shunting_yard.h b/include/altruct/algorithm/parser/shunting_yard.h
index 8e484e3..d0c144f 100644
--- a/include/altruct/algorithm/parser/shunting_yard.h
+++ b/include/altruct/algorithm/parser/shunting_yard.h
@@ -93,7 +93,11 @@ std::vector<postfix_token> infix_to_postfix(
                 res.push_back({ postfix_token::type_t::OPERAND, t.id, 0 });
                 break;
             case infix_token::type_t::OPERATOR:
-                pop_operators(t.id);
+                // a prefix operator doesn't have a left operand to compete for
+                if (operators[t.id].arity != operator_desc::arity_t::UNARY ||
+                    operators[t.id].associativity != operator_desc::assoc_t::RIGHT) {
+                    pop_operators(t.id);
+                }
                 stk.push_back(t);
                 break;
             case infix_token::type_t::LEFT_PARENTHESIS:
-- 
2.43.0


From 430bfff2469550e14c6517aad52956f44b459356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:41 +0000
Subject: [PATCH 27/97] fix: shunting yard passes no arguments to a function
 called with an empty argument list

---
 include/altruct/algorithm/parser/shunting_yard.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/parser/shunting_yard.h b/include/altruct/algorithm/parser/shunting_yard.h
index d0c144f..00fbd7d 100644
--- a/include/altruct/algorithm/parser/shunting_yard.h
+++ b/include/altruct/algorithm/parser/shunting_yard.h
@@ -79,6 +79,7 @@ std::vector<postfix_token> infix_to_postfix(
     int num_args = 0;
     std::vector<postfix_token> res;
     std::vector<infix_token> stk;
+    const infix_token* prev = nullptr;
     auto pop_operators = [&](int id) {
         while (!stk.empty() && stk.back().type == infix_token::type_t::OPERATOR &&
             (id < 0 || operators[id] < operators[stk.back().id])) {
@@ -105,7 +106,7 @@ std::vector<postfix_token> infix_to_postfix(
                 break;
             case infix_token::type_t::RIGHT_PARENTHESIS:
                 pop_operators(-1);
-                num_args = 1;
+                num_args = (prev && prev->type == infix_token::type_t::LEFT_PARENTHESIS) ? 0 : 1;
                 while (!stk.empty() && stk.back().type == infix_token::type_t::SEPARATOR) {
                     num_args++; stk.pop_back();
                 }
@@ -125,6 +126,7 @@ std::vector<postfix_token> infix_to_postfix(
                 stk.push_back(t);
                 break;
         }
+        prev = &t;
     }
     pop_operators(-1);
     return res;
-- 
2.43.0


From 2d77e1597a6f6b723e9d9ac3e4d289101b3a7662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:09 +0000
Subject: [PATCH 28/97] fix: shunting yard applies a postfix operator to its
 operand immediately

---
 include/altruct/algorithm/parser/shunting_yard.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/parser/shunting_yard.h b/include/altruct/algorithm/parser/shunting_yard.h
index 00fbd7d..fc18d4a 100644
--- a/include/altruct/algorithm/parser/shunting_yard.h
+++ b/include/altruct/algorithm/parser/shunting_yard.h
@@ -99,7 +99,13 @@ std::vector<postfix_token> infix_to_postfix(
                     operators[t.id].associativity != operator_desc::assoc_t::RIGHT) {
                     pop_operators(t.id);
                 }
-                stk.push_back(t);
+                if (operators[t.id].arity == operator_desc::arity_t::UNARY &&
+                    operators[t.id].associativity == operator_desc::assoc_t::LEFT) {
+                    // a postfix operator already has its operand
+                    res.push_back({ postfix_token::type_t::FUNCTION, t.id, 1 });
+                } else {
+                    stk.push_back(t);
+                }
                 break;
             case infix_token::type_t::LEFT_PARENTHESIS:
                 stk.push_back(t);
-- 
2.43.0


From bb149ecff308ff79383d990a2b263d0641982ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:21 +0000
Subject: [PATCH 29/97] fix: binary search handles ranges wider than the index
 type

---
 .../altruct/algorithm/search/binary_search.h  | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/search/binary_search.h b/include/altruct/algorithm/search/binary_search.h
index 5b4e798..e9e6445 100644
--- a/include/altruct/algorithm/search/binary_search.h
+++ b/include/altruct/algorithm/search/binary_search.h
@@ -1,8 +1,30 @@
 #pragma once
 
+#include <type_traits>
+
 namespace altruct {
 namespace search {
 
+/**
+ * Distance `hi - lo` for `lo <= hi`.
+ *
+ * For integral types it is unsigned, as the range may be wider than what the
+ * type itself can represent, e.g. `[-2^31, 2^31)` for `int32_t`.
+ */
+template<typename It>
+auto search_distance(const It& lo, const It& hi, std::false_type) -> decltype(hi - lo) {
+    return hi - lo;
+}
+template<typename I>
+typename std::make_unsigned<I>::type search_distance(const I& lo, const I& hi, std::true_type) {
+    typedef typename std::make_unsigned<I>::type U;
+    return U(U(hi) - U(lo));
+}
+template<typename It>
+auto search_distance(const It& lo, const It& hi) -> decltype(search_distance(lo, hi, std::is_integral<It>())) {
+    return search_distance(lo, hi, std::is_integral<It>());
+}
+
 
 /**
  * Returns the first index for which `predicate` returns `true`.
@@ -17,7 +39,7 @@ namespace search {
 template<typename It, typename F>
 It binary_search_pred(It lo, It hi, F predicate) {
     while (lo < hi) {
-        It mid = lo + (hi - lo) / 2;
+        It mid = lo + search_distance(lo, hi) / 2;
         if (predicate(mid)) {
             hi = mid;
         } else {
@@ -40,8 +62,9 @@ It binary_search_pred(It lo, It hi, F predicate) {
 template<typename X, typename F>
 X binary_search_num(X lo, X hi, X eps, F predicate) {
     auto prev_mid = hi;
-    while ((hi - lo) >= eps) {
-        X mid = lo + (hi - lo) / 2;
+    typedef decltype(search_distance(lo, hi)) D;
+    while (!(hi < lo) && search_distance(lo, hi) >= D(eps)) {
+        X mid = lo + search_distance(lo, hi) / 2;
         if (mid == prev_mid) break;
         if (predicate(mid)) {
             hi = mid;
-- 
2.43.0


From d00f17558f3b1fa140d1d4ec1078ee611058ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:46 +0000
Subject: [PATCH 30/97] fix: a copied mtrand reads its own state

---
 include/altruct/algorithm/random/mersenne_twister.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/altruct/algorithm/random/mersenne_twister.h b/include/altruct/algorithm/random/mersenne_twister.h
index 878fedd..c749e50 100644
--- a/include/altruct/algorithm/random/mersenne_twister.h
+++ b/include/altruct/algorithm/random/mersenne_twister.h
@@ -94,6 +94,8 @@ public:
     mtrand(const uint32& oneSeed);  // initialize with a simple uint32
     mtrand(uint32 *const bigSeed, uint32 const seedLength = N);  // or an array
     mtrand();  // auto-initialize with /dev/urandom or time() and clock()
+    mtrand(const mtrand& rhs);  // the copy has its own state
+    mtrand& operator=(const mtrand& rhs);
 
     // Access to 32-bit random numbers
     double rand();                          // real number in [0,1]
@@ -157,6 +159,17 @@ inline mtrand::mtrand() {
     seed();
 }
 
+inline mtrand::mtrand(const mtrand& rhs) {
+    *this = rhs;
+}
+
+inline mtrand& mtrand::operator=(const mtrand& rhs) {
+    for (int i = 0; i < N; ++i) state[i] = rhs.state[i];
+    left = rhs.left;
+    pNext = state + (rhs.pNext - rhs.state);
+    return *this;
+}
+
 inline double mtrand::rand() {
     return double(randInt()) * (1.0 / 4294967295.0);
 }
-- 
2.43.0


From 7105d5219629373a1917aaaa96d301980736b923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:46 +0000
Subject: [PATCH 31/97] fix: mtrand::randNorm scales by the standard deviation

---
 include/altruct/algorithm/random/mersenne_twister.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/random/mersenne_twister.h b/include/altruct/algorithm/random/mersenne_twister.h
index c749e50..4121843 100644
--- a/include/altruct/algorithm/random/mersenne_twister.h
+++ b/include/altruct/algorithm/random/mersenne_twister.h
@@ -202,7 +202,7 @@ inline double mtrand::rand53() {
 inline double mtrand::randNorm(const double& mean, const double& variance) {
     // Return a real number from a normal (Gaussian) distribution with given
     // mean and variance by Box-Muller method
-    double r = sqrt(-2.0 * log(1.0 - randDblExc())) * variance;
+    double r = sqrt(-2.0 * log(1.0 - randDblExc()) * variance);
     double phi = 2.0 * 3.14159265358979323846264338328 * randExc();
     return mean + r * cos(phi);
 }
-- 
2.43.0


From c0c16fe05d5901eed1255d0f29dd39a4cc7c3771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 32/97] fix: integer_to_range handles ranges wider than the
 signed type

---
 include/altruct/algorithm/random/random.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/random/random.h b/include/altruct/algorithm/random/random.h
index 784e16d..b72f254 100644
--- a/include/altruct/algorithm/random/random.h
+++ b/include/altruct/algorithm/random/random.h
@@ -3,6 +3,7 @@
 #include <cstdint>
 #include <limits>
 #include <functional>
+#include <type_traits>
 
 namespace altruct {
 namespace random {
@@ -26,8 +27,9 @@ double integer_to_double_0_1(U val) {
  */
 template<typename U, typename V>
 V integer_to_range(U val, V min, V max) {
-    V width = max - min + 1;
-    return (width == 0) ? V(val) : min + val % width;
+    typedef typename std::make_unsigned<V>::type W;
+    W width = W(W(max) - W(min) + 1);
+    return (width == 0) ? V(val) : V(W(min) + W(val % width));
 }
 
 /**
-- 
2.43.0


From b4c8315c1a8252ff69b6b9fa785500097b33f9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 33/97] fix: integer square and cube roots are exact on the
 whole 64-bit range

---
 include/altruct/algorithm/math/base.h |  8 +++--
 src/algorithm/math/base.cpp           | 42 +++++++++++++++------------
 2 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 97b7e7d..99b71a9 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -247,6 +247,7 @@ T lcm(const T& a, const T& b) {
 int64_t isq(int64_t x);
 int32_t isqrt(int64_t x);
 int32_t isqrtc(int64_t x);
+uint32_t isqrtu(uint64_t x);
 
 /**
  * Integer cube & cube root.
@@ -254,6 +255,7 @@ int32_t isqrtc(int64_t x);
 int64_t icb(int64_t x);
 int32_t icbrt(int64_t x);
 int32_t icbrtc(int64_t x);
+uint32_t icbrtu(uint64_t x);
 
 /**
  * Square of `x`.
@@ -291,8 +293,8 @@ template<> inline int16_t sqrtT(int16_t x, int16_t, size_t) { return isqrt(x); }
 template<> inline uint16_t sqrtT(uint16_t x, uint16_t, size_t) { return isqrt(x); }
 template<> inline int32_t sqrtT(int32_t x, int32_t, size_t) { return isqrt(x); }
 template<> inline uint32_t sqrtT(uint32_t x, uint32_t, size_t) { return isqrt(x); }
-template<> inline int64_t sqrtT(int64_t x, int64_t, size_t) { return isqrt(x); }
-template<> inline uint64_t sqrtT(uint64_t x, uint64_t, size_t) { return isqrt(x); }
+template<> inline int64_t sqrtT(int64_t x, int64_t, size_t) { return (x < 0) ? -int64_t(isqrtu(0 - uint64_t(x))) : int64_t(isqrtu(x)); }
+template<> inline uint64_t sqrtT(uint64_t x, uint64_t, size_t) { return isqrtu(x); }
 
 /**
  * Tests whether `x` is a square.
@@ -338,7 +340,7 @@ template<> inline uint16_t cbrtT(uint16_t x, uint16_t, size_t) { return icbrt(x)
 template<> inline int32_t cbrtT(int32_t x, int32_t, size_t) { return icbrt(x); }
 template<> inline uint32_t cbrtT(uint32_t x, uint32_t, size_t) { return icbrt(x); }
 template<> inline int64_t cbrtT(int64_t x, int64_t, size_t) { return icbrt(x); }
-template<> inline uint64_t cbrtT(uint64_t x, uint64_t, size_t) { return icbrt(x); }
+template<> inline uint64_t cbrtT(uint64_t x, uint64_t, size_t) { return icbrtu(x); }
 
 /**
  * Tests whether `x` is a cube.
diff --git a/src/algorithm/math/base.cpp b/src/algorithm/math/base.cpp
index e618580..67c9ad6 100644
--- a/src/algorithm/math/base.cpp
+++ b/src/algorithm/math/base.cpp
@@ -14,18 +14,21 @@ int64_t isq(int64_t x) {
 
 int32_t isqrt(int64_t x) {
     if (x < 0) return -isqrt(-x);
-    int32_t q = int32_t(floor(sqrt(double(x))));
-    while (isq(q) > x) q--;
-    while (isq(q + 1) <= x) q++;
-    return q;
+    return int32_t(isqrtu(x));
 }
 
 int32_t isqrtc(int64_t x) {
     if (x < 0) return -isqrtc(-x);
-    int32_t q = int32_t(ceil(sqrt(double(x))));
-    while (isq(q) < x) q++;
-    while (q > 0 && isq(q - 1) >= x) q--;
-    return q;
+    return (x > 0) ? int32_t(isqrtu(x - 1) + 1) : 0;
+}
+
+uint32_t isqrtu(uint64_t x) {
+    const uint64_t q_max = 4294967295; // floor(sqrt(2^64 - 1))
+    uint64_t q = uint64_t(floor(sqrt(double(x))));
+    if (q > q_max) q = q_max;
+    while (q * q > x) q--;
+    while (q < q_max && (q + 1) * (q + 1) <= x) q++;
+    return uint32_t(q);
 }
 
 // integer cube & cube root
@@ -35,19 +38,22 @@ int64_t icb(int64_t x) {
 }
 
 int32_t icbrt(int64_t x) {
-    if (x < 0) return -icbrt(-x);
-    int32_t q = int32_t(floor(pow(double(x), 1.0 / 3)));
-    while (icb(q) > x) q--;
-    while (icb(q + 1) <= x) q++;
-    return q;
+    if (x < 0) return -int32_t(icbrtu(0 - uint64_t(x)));
+    return int32_t(icbrtu(x));
 }
 
 int32_t icbrtc(int64_t x) {
-    if (x < 0) return -icbrtc(-x);
-    int32_t q = int32_t(ceil(pow(double(x), 1.0 / 3)));
-    while (icb(q) < x) q++;
-    while (icb(q - 1) >= x) q--;
-    return q;
+    if (x < 0) return -int32_t(icbrtu(0 - uint64_t(x) - 1) + 1);
+    return (x > 0) ? int32_t(icbrtu(x - 1) + 1) : 0;
+}
+
+uint32_t icbrtu(uint64_t x) {
+    const uint64_t q_max = 2642245; // floor(cbrt(2^64 - 1))
+    uint64_t q = uint64_t(floor(pow(double(x), 1.0 / 3)));
+    if (q > q_max) q = q_max;
+    while (q * q * q > x) q--;
+    while (q < q_max && (q + 1) * (q + 1) * (q + 1) <= x) q++;
+    return uint32_t(q);
 }
 
 } // math
-- 
2.43.0


From 16aa7c40e61b7af87ed1f9fc9d04d21ed845d5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 34/97] fix: gcd_max does not overflow

---
 include/altruct/algorithm/math/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 99b71a9..94fcbc2 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -226,7 +226,7 @@ T gcd_max(T a, T b) {
     if (b == e0) return a;
     T go = e0, g = 1;
     while (go != g) {
-        go = g; g = gcd(g * a, b);
+        go = g; g = g * gcd<T>(a, b / g);
     }
     return g;
 }
-- 
2.43.0


From cc3d532ed5df8113493851a6352cacbac729c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 35/97] fix: lcm of zeros is zero

---
 include/altruct/algorithm/math/base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 94fcbc2..3a1e8a4 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -238,6 +238,8 @@ T gcd_max(T a, T b) {
  */
 template<typename T>
 T lcm(const T& a, const T& b) {
+    T e0 = zeroOf(a);
+    if (a == e0 || b == e0) return e0;
     return a * (b / gcd(a, b));
 }
 
-- 
2.43.0


From 130023281ed7e8c129c7fbccb6b5fc272cabb792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 36/97] fix: integer divisions do not overflow in intermediate
 values

---
 include/altruct/algorithm/math/base.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 3a1e8a4..22f0201 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -357,20 +357,23 @@ bool is_cube(I x) {
  */
 template<typename I>
 I div_floor(I a, I b) {
-    if (b < 0) a = -a, b = -b;
-    return (a < 0) ? I((a + 1) / b - 1) : I(a / b);
+    I q = a / b, r = a - q * b;
+    return (r != 0 && (r < 0) != (b < 0)) ? I(q - 1) : q;
 }
 
 template<typename I>
 I div_ceil(I a, I b) {
-    if (b < 0) a = -a, b = -b;
-    return (a > 0) ? I((a - 1) / b + 1) : I(a / b);
+    I q = a / b, r = a - q * b;
+    return (r != 0 && (r < 0) == (b < 0)) ? I(q + 1) : q;
 }
 
 template<typename I>
 I div_round(I a, I b) {
-    if (b < 0) a = -a, b = -b;
-    return (a > 0) ? I((a + b / 2) / b) : I((a - b / 2) / b);
+    I q = a / b, r = a - q * b;
+    if ((r < 0) != (b < 0)) r = -r;
+    // `|r| >= |b| - |r|`, where both `r` and `b` are now of the same sign
+    bool away = (b < 0) ? (r <= b - r) : (r >= b - r);
+    return !away ? q : ((a < 0) == (b < 0)) ? I(q + 1) : I(q - 1);
 }
 
 /**
-- 
2.43.0


From 43d133023d3011d297024ccab9ce1179b88f9c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:21 +0000
Subject: [PATCH 37/97] fix: multiple of a negative number is not below the
 bound

---
 include/altruct/algorithm/math/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 22f0201..62c6c6b 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -381,7 +381,7 @@ I div_round(I a, I b) {
  */
 template<typename I>
 I multiple(I a, I b) {
-    return div_ceil(b, a) * a;
+    return ((a < 0) ? div_floor(b, a) : div_ceil(b, a)) * a;
 }
 
 } // math
-- 
2.43.0


From 40b009d4d37ed7ab47f6329149b8e4891b0968a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:44 +0000
Subject: [PATCH 38/97] fix: generic square and cube roots terminate for
 unsigned types

---
 include/altruct/algorithm/math/base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 62c6c6b..11fa419 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -280,7 +280,7 @@ T sqrtT(T x, T eps = T(1), size_t max_iter = 0) {
     if (x == 1) return 1;
     T q1 = x / 2;
     T q2 = x / q1;
-    while (absT(T(q1 - q2)) > eps && --max_iter > 0) {
+    while (maxT(q1, q2) - minT(q1, q2) > eps && --max_iter > 0) {
         q1 = (q1 + q2) / 2;
         q2 = x / q1;
     }
@@ -328,7 +328,7 @@ T cbrtT(T x, T eps = T(1), size_t max_iter = 0) {
     T r0 = 0;
     T r1 = sqrtT(x, eps);
     T r2 = x / sqT(r1);
-    while (r1 != r0 && absT(T(r1 - r2)) > eps && --max_iter > 0) {
+    while (r1 != r0 && maxT(r1, r2) - minT(r1, r2) > eps && --max_iter > 0) {
         r0 = r1;
         r1 = (r1 + r1 + r2) / 3;
         r2 = x / sqT(r1);
-- 
2.43.0


From b2697708b1bd2bab465e1eac2289203953b847d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:36 +0000
Subject: [PATCH 39/97] fix: make_ones of the full width

---
 include/altruct/algorithm/math/bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/bits.h b/include/altruct/algorithm/math/bits.h
index 33e798e..3f517c9 100644
--- a/include/altruct/algorithm/math/bits.h
+++ b/include/altruct/algorithm/math/bits.h
@@ -25,7 +25,7 @@ const int bit_size<T>::value;
 /** Makes the bit at the given position. */
 template<typename T> T make_bit(int pos) { return T(1) << pos; }
 /** Makes `cnt` ones in a row. */
-template<typename T> T make_ones(int cnt) { return make_bit<T>(cnt) - 1; }
+template<typename T> T make_ones(int cnt) { return (cnt < bit_size<T>::value) ? make_bit<T>(cnt) - 1 : ~T(0); }
 /** Gets the bit at the given position. */
 template<typename T> T get_bit(T val, int pos) { return (val >> pos) & 1; }
 /** Sets the bit at the given position. */
-- 
2.43.0


From 2b627be413a04fcb2b32469bb67bd631bbb84bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:58 +0000
Subject: [PATCH 40/97] fix: modulo_normalize of the minimum signed value

---
 include/altruct/structure/math/modulo.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/modulo.h b/include/altruct/structure/math/modulo.h
index bd6d54d..14edd68 100644
--- a/include/altruct/structure/math/modulo.h
+++ b/include/altruct/structure/math/modulo.h
@@ -132,8 +132,10 @@ I modulo_normalize(U v, I M) {
 }
 template<typename S, typename I, typename std::enable_if_t<std::is_signed<S>::value && std::is_integral<I>::value, bool> = true>
 I modulo_normalize(S v, I M) {
-    if (v < 0) return modulo_neg_int(modulo_normalize(-v, M), M);
-    return modulo_normalize(static_cast<typename std::make_unsigned<S>::type>(v), M);
+    typedef typename std::make_unsigned<S>::type U;
+    // negated as unsigned because the minimum value has no positive counterpart
+    if (v < 0) return modulo_neg_int(modulo_normalize(static_cast<U>(0 - static_cast<U>(v)), M), M);
+    return modulo_normalize(static_cast<U>(v), M);
 }
 
 
-- 
2.43.0


From d3aa4111a23f5e59145499b38d8dcbc46dcf4bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:58 +0000
Subject: [PATCH 41/97] fix: modulo_add_int does not overflow the signed type

---
 include/altruct/structure/math/modulo.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/altruct/structure/math/modulo.h b/include/altruct/structure/math/modulo.h
index 14edd68..87407c4 100644
--- a/include/altruct/structure/math/modulo.h
+++ b/include/altruct/structure/math/modulo.h
@@ -53,9 +53,10 @@ U modulo_add_uint(U x, U y, U M) { // y = M is allowed
 }
 template<typename S>
 S modulo_add_int(S x, S y, S M) { // y = M is allowed
-    // TODO: use add_overflow when MSVC adds intrinsics
-    S r = x + y; bool of = (r < 0);
-    return (!of && r < M) ? r : (r - M);
+    // the sum of two non-negative signed values always fits the unsigned type
+    typedef typename std::make_unsigned<S>::type U;
+    U r = U(x) + U(y);
+    return (r < U(M)) ? S(r) : S(r - U(M));
 }
 template<typename U, typename std::enable_if_t<std::is_unsigned<U>::value, bool> = true>
 U modulo_add(U x, U y, U M) { return modulo_add_uint(x, y, M); }
-- 
2.43.0


From 972c1d89746e9eccd4aeacb48df62965a8a3e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 42/97] fix: modulo_mul handles every 64-bit type

---
 include/altruct/structure/math/modulo.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/modulo.h b/include/altruct/structure/math/modulo.h
index 87407c4..5d08594 100644
--- a/include/altruct/structure/math/modulo.h
+++ b/include/altruct/structure/math/modulo.h
@@ -79,14 +79,16 @@ I modulo_mul_int_long(I x, I y, I M) {
     }
     return r;
 }
-template<typename U, typename std::enable_if_t<std::is_unsigned<U>::value, bool> = true>
+template<typename U, typename std::enable_if_t<std::is_unsigned<U>::value && sizeof(U) < sizeof(uint64_t), bool> = true>
 U modulo_mul(U x, U y, U M) {
     return (uint32_t(x) * uint32_t(y)) % uint32_t(M);
 }
 template<> inline uint32_t modulo_mul(uint32_t x, uint32_t y, uint32_t M) {
     return (uint64_t(x) * y) % M;
 }
-template<> inline uint64_t modulo_mul(uint64_t x, uint64_t y, uint64_t M) {
+// for each of the 64-bit types, `unsigned long` and `unsigned long long` are different
+template<typename U, typename std::enable_if_t<std::is_unsigned<U>::value && sizeof(U) == sizeof(uint64_t), bool> = true>
+U modulo_mul(U x, U y, U M) {
     return ((x >> 32) == 0 && (y >> 32) == 0) ? (x * uint32_t(y)) % M : modulo_mul_int_long(x, y, M);
 }
 template<typename S, typename std::enable_if_t<std::is_signed<S>::value, bool> = true>
-- 
2.43.0


From 30e68d89ef6fefafaf0f98f679ec8d9234db0eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:54 +0000
Subject: [PATCH 43/97] fix: sqrt_mod works for every integer type without
 overflow

---
 include/altruct/algorithm/math/modulos.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index 2ccf959..a7a5cc7 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -192,7 +192,7 @@ std::vector<I> sqrt_mod(I y, const std::vector<std::pair<P, int>>& vf) {
     I m = 1;
     std::unordered_set<I> sr{ 0 };
     auto add = [&](std::unordered_set<I>& sr0, I x, I q) {
-        if ((x * x - y) % q != 0) return;
+        if (modulo_mul(x, x, q) != modT(y, q)) return;
         for (I r0 : sr0) {
             sr.insert(chinese_remainder(r0, m, x, q));
             sr.insert(chinese_remainder(r0, m, modulo_neg(x, q), q));
@@ -203,12 +203,12 @@ std::vector<I> sqrt_mod(I y, const std::vector<std::pair<P, int>>& vf) {
         sr0.swap(sr);
         I q = powT<I>(f.first, f.second);
         if (f.first == 2) {
-            auto x = sqrt_hensel_lift_p2(y, f.second);
+            auto x = sqrt_hensel_lift_p2<I>(y, f.second);
             add(sr0, x.first, q);
             add(sr0, x.second, q);
         }
         else {
-            auto x = sqrt_hensel_lift(y, f.first, f.second);
+            auto x = sqrt_hensel_lift<I>(y, f.first, f.second);
             add(sr0, x, q);
         }
         m *= q;
-- 
2.43.0


From 4275eafb2fd0fbc190b853f370e09bc7b762990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:54 +0000
Subject: [PATCH 44/97] fix: jacobi handles a negative argument

---
 include/altruct/algorithm/math/modulos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index a7a5cc7..6b9b6a4 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -87,7 +87,7 @@ int jacobi(I n, I m) {
     int e, j = 1;
     for (;;) {
         if (m == 1) return j;
-        n %= m;
+        n = modT(n, m);
         if (n == 0) return 0;
         for (e = 0; (n % 2) == 0; e++) n /= 2;
         if ((e % 2) == 1 && (m % 8) == 3) j = -j;
-- 
2.43.0


From 3d90925b8d36ecee93b2b10ed9bfdb73089cbd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:54 +0000
Subject: [PATCH 45/97] fix: chinese_remainder compares residues without
 wrapping

---
 include/altruct/algorithm/math/modulos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index 6b9b6a4..4da34ea 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -28,7 +28,7 @@ template<typename T>
 void chinese_remainder(T* a, T* n, T a1, T n1, T a2, T n2) {
     T e0 = zeroT<T>::of(*a);
     T ni1, ni2; T g = modulo_gcd_ex(n1, n2, ni1, ni2);
-    if ((a2 - a1) % g != e0) { *n = e0, *a = e0; return; }
+    if (a1 % g != a2 % g) { *n = e0, *a = e0; return; }
     T t1 = modulo_mul(a1, ni2, n1);
     T t2 = modulo_mul(a2, ni1, n2);
     n1 /= g; n2 /= g; *n = n1 * n2 * g;
-- 
2.43.0


From 7b0de733934fa92886eea5d8e74e17d7ee25b3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:35 +0000
Subject: [PATCH 46/97] fix: garner normalizes digits to the current modulus

---
 include/altruct/algorithm/math/modulos.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index 4da34ea..a863d12 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -61,8 +61,8 @@ V garner(const V& vap) {
     for (int i = 0; i < vx.size(); i++) {
         auto y = vap[i];
         for (int j = 0; j < i; j++) {
-            y -= vx[j];
-            y /= vap[j].M();
+            y -= castOf(y, vx[j].v);
+            y /= castOf(y, vap[j].M());
         }
         vx[i] = y;
     }
-- 
2.43.0


From dc70818980f10fc7882fcf564a3ed7e760cd123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:10 +0000
Subject: [PATCH 47/97] fix: primes and prime_pi stay within the prime array

---
 src/algorithm/math/primes.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/algorithm/math/primes.cpp b/src/algorithm/math/primes.cpp
index d3776ed..9f0918a 100644
--- a/src/algorithm/math/primes.cpp
+++ b/src/algorithm/math/primes.cpp
@@ -28,13 +28,12 @@ int primes(int *p, char *q, int n) {
         for (int j = i * i; j < n; j += i)
             q[j] = 0;
     }
-    if (p) p[m] = 0;
     return m;
 }
 
 void prime_pi(int *pi, int n, const int *p, int m) {
     for (int i = 0, l = 0; i < n; i++) {
-        if (i == p[l]) l++;
+        if (l < m && i == p[l]) l++;
         pi[i] = l;
     }
 }
-- 
2.43.0


From 03d0fafd377e923d4baab8981c2c4533f31df8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:10 +0000
Subject: [PATCH 48/97] fix: sieves for bounds 0 and 1

---
 src/algorithm/math/primes.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/math/primes.cpp b/src/algorithm/math/primes.cpp
index 9f0918a..146126c 100644
--- a/src/algorithm/math/primes.cpp
+++ b/src/algorithm/math/primes.cpp
@@ -47,9 +47,8 @@ void euler_phi(int *phi, int n, const int *p, int m) {
 }
 
 void moebius_mu(int *mu, int n, const int* p, int m) {
-    mu[0] = 0;
-    for (int i = 1; i < n; i++)
-        mu[i] = 1;
+    for (int i = 0; i < n; i++)
+        mu[i] = (i > 0) ? 1 : 0;
     for (int i = 2; i * i < n; i++) {
         if (mu[i] != 1) continue;
         int i2 = i * i;
@@ -157,7 +156,7 @@ void smallest_factor(int* spf, size_t n) {
             spf[j] = 1;
         }
     }
-    for (size_t i = n - 1; i >= 2; i--) {
+    for (size_t i = n; i-- > 2;) {
         if (spf[i] || i > n / i) continue;
         for (size_t j = i * i; j < n; j += i) {
             spf[j] = (int)i;
@@ -166,7 +165,8 @@ void smallest_factor(int* spf, size_t n) {
 }
 
 void factor(int *bpf, int n, const int *p, int m) {
-    bpf[0] = 0, bpf[1] = 1;
+    for (int i = 0; i < n && i < 2; i++)
+        bpf[i] = i;
     for (int i = 0; i < m; i++)
         for (int j = p[i]; j < n; j += p[i])
             bpf[j] = p[i];
-- 
2.43.0


From 10207eb8773752af305bccfce73be28b5163701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:11 +0000
Subject: [PATCH 49/97] fix: segmented sieves of empty segments and of [0, 1)

---
 src/algorithm/math/primes.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/math/primes.cpp b/src/algorithm/math/primes.cpp
index 146126c..d0549ec 100644
--- a/src/algorithm/math/primes.cpp
+++ b/src/algorithm/math/primes.cpp
@@ -75,8 +75,8 @@ void prime_nu(int *nu, int n, const int* p, int m) {
 
 void segmented_q(char* q, int64_t b, int64_t e, const int *p, int m) {
     char* _q = q - b;
-    if (b == 0) _q[b++] = 0;
-    if (b == 1) _q[b++] = 0;
+    if (b == 0 && b < e) _q[b++] = 0;
+    if (b == 1 && b < e) _q[b++] = 0;
     for (int64_t a = b; a < e; a++)
         _q[a] = 1;
     for (int i = 0; i < m; i++) {
@@ -89,7 +89,7 @@ void segmented_q(char* q, int64_t b, int64_t e, const int *p, int m) {
 
 void segmented_phi(int64_t *phi, int64_t *tmp, int64_t b, int64_t e, const int *p, int m) {
     int64_t *_phi = phi - b, *_tmp = tmp - b;
-    if (b == 0) _phi[b++] = 0;
+    if (b == 0 && b < e) _phi[b++] = 0;
     for (int64_t q = b; q < e; q++)
         _phi[q] = 1, _tmp[q] = q;
     for (int i = 0; i < m; i++) {
@@ -106,7 +106,7 @@ void segmented_phi(int64_t *phi, int64_t *tmp, int64_t b, int64_t e, const int *
 
 void segmented_mu(int64_t *mu, int64_t b, int64_t e, const int *p, int m) {
     int64_t *_mu = mu - b;
-    if (b == 0) _mu[b++] = 0;
+    if (b == 0 && b < e) _mu[b++] = 0;
     for (int64_t q = b; q < e; q++)
         _mu[q] = 1;
     for (int i = 0; i < m; i++) {
-- 
2.43.0


From 49b8ed9029f73b6f7f446a2002e37391b43aa4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:59 +0000
Subject: [PATCH 50/97] fix: miller_rabin is deterministic for every 64-bit
 integer

---
 include/altruct/algorithm/math/factorization.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/factorization.h b/include/altruct/algorithm/math/factorization.h
index 3f8952c..da1cdb7 100644
--- a/include/altruct/algorithm/math/factorization.h
+++ b/include/altruct/algorithm/math/factorization.h
@@ -66,8 +66,10 @@ bool miller_rabin(const T& n) {
     // 10^18, 2^61
     static T bases9[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 0 };
     if (n < 3825123056546413051LL) return miller_rabin(n, bases9);
-    // fallback to bases9 for larger numbers too
-    return miller_rabin(n, bases9);
+    // 10^23, 2^78
+    static T bases12[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 0 };
+    // fallback to bases12 for numbers larger than 318665857834031151167461 too
+    return miller_rabin(n, bases12);
 }
 
 /**
-- 
2.43.0


From efe12aa968d3d3f002f0994d390b50ffeb3fbe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:43 +0000
Subject: [PATCH 51/97] fix: nth_permutation does not overflow the index type

---
 include/altruct/algorithm/math/combinatorics.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/altruct/algorithm/math/combinatorics.h b/include/altruct/algorithm/math/combinatorics.h
index 00fd1b4..ee9c2ee 100644
--- a/include/altruct/algorithm/math/combinatorics.h
+++ b/include/altruct/algorithm/math/combinatorics.h
@@ -65,13 +65,11 @@ bool next_partition(BidIt begin, BidIt end) {
 template<typename It, typename I>
 void nth_permutation(It begin, It end, I o) {
     auto d = std::distance(begin, end);
-    int i = 0; I f = 1;
-    while (i < d && f <= o) f *= ++i;
-    while (i > 1) {
-        o %= f;
-        while (i > 1 && f > o) f /= i--;
+    int i = 0; I f = 1; // f = i!, without exceeding `o`
+    while (i + 1 < d && f <= o / (i + 1)) f *= ++i;
+    for (; i > 0; f /= i--) {
         It it = end - i - 1;
-        for (int k = int(o / f); k > 0; k--) {
+        for (int k = int(o / f % (i + 1)); k > 0; k--) {
             std::swap(*(it + k), *(it + k - 1));
         }
     }
-- 
2.43.0


From 08024d29aa49e9b9650b0df25cc46a96545c89eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:43 +0000
Subject: [PATCH 52/97] fix: next_partition of unsigned values and of empty
 ranges

---
 include/altruct/algorithm/math/combinatorics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/combinatorics.h b/include/altruct/algorithm/math/combinatorics.h
index ee9c2ee..70246f1 100644
--- a/include/altruct/algorithm/math/combinatorics.h
+++ b/include/altruct/algorithm/math/combinatorics.h
@@ -40,11 +40,12 @@ template<typename BidIt>
 bool next_partition(BidIt begin, BidIt end) {
     typedef typename std::iterator_traits<BidIt>::value_type I;
     I l = 0, x = 0;
+    if (begin == end) return false;
     for (BidIt it = end; it != begin;) {
         --it; l = l + 1;
          x += *it;
         I xm = *it - 1;
-        if (xm > 0 && (x - 1) / xm <= (l - 1)) {
+        if (*it > 1 && (x - 1) / xm <= (l - 1)) {
             for (; x > xm; x -= xm) {
                 *it++ = xm;
             }
-- 
2.43.0


From e8598b5d45622657b66fabfffec9224b05a33cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:51 +0000
Subject: [PATCH 53/97] fix: counting tables and series of size zero

---
 include/altruct/algorithm/math/counting.h | 2 ++
 include/altruct/structure/math/polynom.h  | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/counting.h b/include/altruct/algorithm/math/counting.h
index 30c79db..c8c1d6f 100644
--- a/include/altruct/algorithm/math/counting.h
+++ b/include/altruct/algorithm/math/counting.h
@@ -168,6 +168,7 @@ std::vector<T> euler_function(int n, T id = T(1)) {
     // See https://en.wikipedia.org/wiki/Pentagonal_number_theorem
     T e0 = zeroT<T>::of(id);
     std::vector<T> e(n, e0);
+    if (n == 0) return e;
     e[0] = id;
     for (int k = 4, m = 1; m < n; m += k, k += 3) {
         e[m] = (k % 2 == 0) ? -id : id;
@@ -191,6 +192,7 @@ std::vector<T> partitions_p_slow(int n, T id = T(1)) {
     // See https://en.wikipedia.org/wiki/Pentagonal_number_theorem
     T e0 = zeroT<T>::of(id);
     std::vector<T> p(n, e0);
+    if (n == 0) return p;
     p[0] = id;
     for (int i = 1; i < n; i++) {
         for (int k = 4, m = 1; m <= i; m += k, k += 3) {
diff --git a/include/altruct/structure/math/polynom.h b/include/altruct/structure/math/polynom.h
index 3d4b5ed..b69c0fa 100644
--- a/include/altruct/structure/math/polynom.h
+++ b/include/altruct/structure/math/polynom.h
@@ -184,7 +184,7 @@ public:
     // r(x) so that p(x) * r(x) == 1 + O(x^L); O(M(L))
     polynom inverse(int L) const {
         // ensure that c[0] is 1 before inverting
-        if (c[0] == ZERO_COEFF) return polynom<T>{ ZERO_COEFF };
+        if (at(0) == ZERO_COEFF) return polynom<T>{ ZERO_COEFF };
         if (c[0] != id_coeff()) return (*this / c[0]).inverse(L) / c[0];
         polynom r{ id_coeff() }, t;
         for (int l = 1; l < L * 2; l *= 2) {
-- 
2.43.0


From 1affd09772b360315b69ad1322c40a132ea2c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:24 +0000
Subject: [PATCH 54/97] fix: series pow of series with zero constant
 coefficient

---
 include/altruct/structure/math/series.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/series.h b/include/altruct/structure/math/series.h
index 19aff45..94eb31b 100644
--- a/include/altruct/structure/math/series.h
+++ b/include/altruct/structure/math/series.h
@@ -320,11 +320,13 @@ public:
 
     // s(x)^a - a-th power of s(x)
     series pow(int64_t a, int64_t threshold = 200) const {
-        if (a < threshold) {
+        if (a < threshold || a == 0) {
             return powT(*this, a);
         } else if (p[0] == p.ZERO_COEFF) {
             int l = p.lowest();
-            return shift(-p.lowest()).pow(a).shift(p.lowest() * int(a));
+            // the result is `O(x^N)` if the series is zero or if `l * a >= N`
+            if (l == 0 || a > (this->N() - 1) / l) return series(polynom<T>{ p.ZERO_COEFF }, this->N());
+            return shift(-l).pow(a, threshold).shift(l * int(a));
         } else if (p[0] == id_coeff()) {
             return (ln() * castOf(p[0], a)).exp();
         } else {
-- 
2.43.0


From d4805dd66ac9a346b4affa1f205cc7dcfe8f33af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:24 +0000
Subject: [PATCH 55/97] fix: product of empty series is empty

---
 include/altruct/structure/math/series.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/series.h b/include/altruct/structure/math/series.h
index 94eb31b..ec43674 100644
--- a/include/altruct/structure/math/series.h
+++ b/include/altruct/structure/math/series.h
@@ -99,7 +99,7 @@ public:
 
     series& operator += (const series &rhs) { p += rhs.p; p.resize(this->N()); return *this; }
     series& operator -= (const series &rhs) { p -= rhs.p; p.resize(this->N()); return *this; }
-    series& operator *= (const series& rhs) { polynom<T>::mul(p, p, rhs.p, this->N() - 1); return *this; }
+    series& operator *= (const series& rhs) { polynom<T>::mul(p, p, rhs.p, this->N() - 1); p.resize(this->N()); return *this; }
     series& operator /= (const series& rhs) { return *this *= rhs.inverse(); }
 
     series& operator *= (const T &val) { p *= val; p.resize(this->N()); return *this; }
-- 
2.43.0


From d21e6b01ff506c3d92ee7d5e9b1c4a65f164e91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:19 +0000
Subject: [PATCH 56/97] fix: binomial_mod_pp_reduced_slow for arguments wider
 than the modulus type

---
 include/altruct/algorithm/math/comb_mod_pp.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/comb_mod_pp.h b/include/altruct/algorithm/math/comb_mod_pp.h
index 784db1b..f0773dc 100644
--- a/include/altruct/algorithm/math/comb_mod_pp.h
+++ b/include/altruct/algorithm/math/comb_mod_pp.h
@@ -99,11 +99,12 @@ std::pair<R, I> factorial_mod_pp_reduced_slow(I n, int p, int e) {
 template<typename R, typename I>
 std::pair<R, I> binomial_mod_pp_reduced_slow(I n, I k, int p, int e) {
     k = std::min<I>(k, n - k);
-    moduloX<R> r(1, powT(castOf<R>(p), e)), s = r;
+    R m = powT(castOf<R>(p), e);
+    moduloX<R> r(1, m), s = r;
     I ar = 0, as = 0;
     for (I i = 1; i <= k; i++, n--) {
-        r *= castOf<R>(factor_out(n, p, ar));
-        s *= castOf<R>(factor_out(i, p, as));
+        r *= castOf<R, I>(factor_out(n, p, ar) % m);
+        s *= castOf<R, I>(factor_out(i, p, as) % m);
     }
     r /= s;
     ar -= as;
-- 
2.43.0


From 2790299b4731fef3047a997b41d9111662caea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:54 +0000
Subject: [PATCH 57/97] fix: fft convolutions of empty sequences

---
 include/altruct/algorithm/math/fft.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/fft.h b/include/altruct/algorithm/math/fft.h
index 88c93d9..55146f8 100644
--- a/include/altruct/algorithm/math/fft.h
+++ b/include/altruct/algorithm/math/fft.h
@@ -119,6 +119,7 @@ std::vector<T> convolution(It u_begin, It u_end, It v_begin, It v_end, const R&
     R e1 = identityT<R>::of(root_base); T e0 = zeroT<T>::of(T(e1));
     std::vector<T> r, u(u_begin, u_end), v(v_begin, v_end);
     int n = (int)(u.size() + v.size() - 1);
+    if (u.empty() || v.empty()) return std::vector<T>(n < 0 ? 0 : n, e0);
     int l = 1; while (l < n) l *= 2;
     r.resize(l, e0); u.resize(l, e0); v.resize(l, e0);
     fft_cyclic_convolution(&r[0], &u[0], &v[0], l, root_base, root_order);
@@ -143,8 +144,9 @@ std::vector<T> cyclic_convolution(It u_begin, It u_end, It v_begin, It v_end, co
     R e1 = identityT<R>::of(root_base); T e0 = zeroT<T>::of(T(e1));
     std::vector<T> r, u(u_begin, u_end), v(v_begin, v_end);
     int u_size = (int)u.size(), v_size = (int)v.size();
-    int vv_size = multiple(v_size, u_size);
     int n = v_size + u_size - 1;
+    if (u.empty() || v.empty()) return std::vector<T>(n < 0 ? 0 : n, e0);
+    int vv_size = multiple(v_size, u_size);
     int nn = vv_size + u_size - 1;
     int l = 1; while (l < nn) l *= 2;
     r.resize(l, e0); u.resize(l, e0); v.resize(l, e0);
-- 
2.43.0


From e622dc1b39aeb7db6974b7f6e9dbdb1a0e34eb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:34 +0000
Subject: [PATCH 58/97] fix: complex_root_wrapper results remain valid

---
 include/altruct/structure/math/root_wrapper.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/altruct/structure/math/root_wrapper.h b/include/altruct/structure/math/root_wrapper.h
index 1d818cf..51e437a 100644
--- a/include/altruct/structure/math/root_wrapper.h
+++ b/include/altruct/structure/math/root_wrapper.h
@@ -4,6 +4,7 @@
 #include "altruct/structure/math/complex.h"
 
 #include <cmath>
+#include <map>
 #include <vector>
 
 namespace altruct {
@@ -46,17 +47,19 @@ template<typename F>
 root_wrapper<complex<F>> complex_root_wrapper(int l) {
     typedef complex<F> cplx;
     static const auto _2_PI = 2 * acos(F(-1));
-    static std::vector<cplx> roots{F(1)};
-    int size = (int)roots.size();
-    if (size < l) {
-        while (size < l) size *= 2;
+    // roots for each size are kept so that the returned wrappers remain valid
+    static std::map<int, std::vector<cplx>> roots_by_size;
+    int size = 1;
+    while (size < l) size *= 2;
+    auto& roots = roots_by_size[size];
+    if (roots.empty()) {
         roots.resize(size);
         for (int i = 0; i < size; i++) {
             auto A = _2_PI * i / size;
             roots[i] = cplx(cos(A), sin(A));
         }
     }
-    return root_wrapper<cplx>(roots.data(), size, 1);
+    return root_wrapper<cplx>(roots.data(), size, 1 & (size - 1));
 }
 
 } // math
-- 
2.43.0


From 04bf93a61bd1b78389c68ae3446533f38651e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:29 +0000
Subject: [PATCH 59/97] fix: monotonic_search compares with y

---
 include/altruct/algorithm/math/polynoms.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/polynoms.h b/include/altruct/algorithm/math/polynoms.h
index 61720fd..a630274 100644
--- a/include/altruct/algorithm/math/polynoms.h
+++ b/include/altruct/algorithm/math/polynoms.h
@@ -23,14 +23,14 @@ template<typename P, typename F>
 F monotonic_search(const P &p, const F &b, const F& e, const F& y, const F& epsy = 0, const F& epsx = 0, int max_iter = 200) {
     F lo = b, hi = e, mid = e;
     F val_b = p(b), val_e = p(e);
-    if (-epsy <= val_b && val_b <= epsy) return b;
-    if (-epsy <= val_e && val_e <= epsy) return e;
+    if (-epsy <= val_b - y && val_b - y <= epsy) return b;
+    if (-epsy <= val_e - y && val_e - y <= epsy) return e;
     int s = (val_b > val_e) ? -1 : +1;
     while (hi - lo > epsx && max_iter-- > 0) {
         mid = (lo + hi) / 2;
         if (mid == lo || mid == hi) return mid;
         F val = p(mid);
-        if (-epsy <= val && val <= epsy) return mid;
+        if (-epsy <= val - y && val - y <= epsy) return mid;
         if ((s > 0) ? (val < y) : (val > y)) {
             lo = mid;
         }
-- 
2.43.0


From 5ba70e12fa3572c5683f7e2e24b089031f790932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:29 +0000
Subject: [PATCH 60/97] fix: polynom multiplication for moduli wider than 32
 bits

---
 include/altruct/algorithm/math/polynom_mod.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/polynom_mod.h b/include/altruct/algorithm/math/polynom_mod.h
index 94140d0..87c621d 100644
--- a/include/altruct/algorithm/math/polynom_mod.h
+++ b/include/altruct/algorithm/math/polynom_mod.h
@@ -194,7 +194,7 @@ struct polynom_mul<modulo<I, ID, STORAGE_TYPE>, std::enable_if_t<std::is_integra
     static void impl(mod* pr, int lr, const mod* p1, int l1, const mod* p2, int l2) {
         if (l2 < 48) { // LONG_THRESHOLD
             polynom<mod>::_mul_long(pr, lr, p1, l1, p2, l2);
-        } else if (l2 < 100 || l1 < 450 || cost_karatsuba(l1, l2) < cost_fft(l1, l2)) {
+        } else if (l2 < 100 || l1 < 450 || uint64_t(p1->M()) > UINT32_MAX || cost_karatsuba(l1, l2) < cost_fft(l1, l2)) { // FFT works for `M < 2^32`
             polynom<mod>::_mul_karatsuba(pr, lr, p1, l1, p2, l2);
         } else if (l1 + l2 <= 100000) {
             _mul_fft(pr, lr, p1, l1, p2, l2);
-- 
2.43.0


From a5ee19a64e485139aa1fb5aa58dd184755199451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:29 +0000
Subject: [PATCH 61/97] fix: polynom operations with its own coefficient as a
 scalar

---
 include/altruct/structure/math/polynom.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/polynom.h b/include/altruct/structure/math/polynom.h
index b69c0fa..f398898 100644
--- a/include/altruct/structure/math/polynom.h
+++ b/include/altruct/structure/math/polynom.h
@@ -315,8 +315,8 @@ public:
     polynom& operator /= (const polynom &rhs) { div(*this, *this, rhs); return *this; }
     polynom& operator %= (const polynom &rhs) { mod(*this, *this, rhs); return *this; }
 
-    polynom& operator *= (const T &val) { mul(*this, *this, val); return *this; }
-    polynom& operator /= (const T &val) { div(*this, *this, val); return *this; }
+    polynom& operator *= (const T &val) { mul(*this, *this, T(val)); return *this; }
+    polynom& operator /= (const T &val) { div(*this, *this, T(val)); return *this; }
 
     template<typename A>
     A operator () (const A& x) const { return eval<A>(x); }
-- 
2.43.0


From f026de79cebacbe4f52b04d411dd9c77e3f07533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:28 +0000
Subject: [PATCH 62/97] fix: series shift by more places than the precision

---
 include/altruct/structure/math/series.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/structure/math/series.h b/include/altruct/structure/math/series.h
index ec43674..3b0467d 100644
--- a/include/altruct/structure/math/series.h
+++ b/include/altruct/structure/math/series.h
@@ -140,6 +140,7 @@ public:
 
     // s(x)*x^l - shifts coefficients of s(x) by l places
     series shift(int l) const {
+        l = std::max(-this->N(), std::min(l, this->N()));
         if (l < 0) {
             polynom<T> t(p.c.begin() - l, p.c.end());
             t.c.insert(t.c.end(), -l, p.ZERO_COEFF);
-- 
2.43.0


From 0ccde8b28a30af6a749713ed41c5d35fedab913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:04 +0000
Subject: [PATCH 63/97] fix: matrix rank of singular matrices

---
 include/altruct/structure/math/matrix.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/altruct/structure/math/matrix.h b/include/altruct/structure/math/matrix.h
index d4d2422..26ce173 100644
--- a/include/altruct/structure/math/matrix.h
+++ b/include/altruct/structure/math/matrix.h
@@ -173,26 +173,26 @@ public:
                 det = e0;
                 continue;
             }
-            rank++;
+            int r = rank++;
             // rows transposition
-            if (i != j) {
-                std::swap(mat.a[i], mat.a[j]);
-                std::swap(inv.a[i], inv.a[j]);
+            if (i != r) {
+                std::swap(mat.a[i], mat.a[r]);
+                std::swap(inv.a[i], inv.a[r]);
                 det = -det;
             }
             // normalize row
-            T pi = e1 / mat.a[j][j];
-            det *= mat.a[j][j];
+            T pi = e1 / mat.a[r][j];
+            det *= mat.a[r][j];
             for (k = 0; k < n; k++) {
-                mat.a[j][k] *= pi;
-                inv.a[j][k] *= pi;
+                mat.a[r][k] *= pi;
+                inv.a[r][k] *= pi;
             }
             // eliminate below
             for (i = rank; i < n; i++) {
                 T p = mat.a[i][j]; if (p == e0) continue;
                 for (k = 0; k < n; k++) {
-                    mat.a[i][k] -= mat.a[j][k] * p;
-                    inv.a[i][k] -= inv.a[j][k] * p;
+                    mat.a[i][k] -= mat.a[r][k] * p;
+                    inv.a[i][k] -= inv.a[r][k] * p;
                 }
             }
         }
-- 
2.43.0


From 8086f9fc8ac7f487aa933e8f6b48fadf493cf1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:04 +0000
Subject: [PATCH 64/97] fix: matrix operations with its own element as a scalar

---
 include/altruct/structure/math/matrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/matrix.h b/include/altruct/structure/math/matrix.h
index 26ce173..fba0060 100644
--- a/include/altruct/structure/math/matrix.h
+++ b/include/altruct/structure/math/matrix.h
@@ -117,7 +117,8 @@ public:
         return matrix(*this) *= rhs;
     }
 
-    matrix& operator *= (const T& s) {
+    matrix& operator *= (const T& val) {
+        T s = val; // `val` may be one of the elements
         int n = rows(), m = cols();
         for (int i = 0; i < n; i++) {
             for (int j = 0; j < m; j++) {
@@ -137,7 +138,8 @@ public:
         return matrix(*this) *= rhs.inverse();
     }
 
-    matrix& operator /= (const T& s) {
+    matrix& operator /= (const T& val) {
+        T s = val; // `val` may be one of the elements
         int n = rows(), m = cols();
         for (int i = 0; i < n; i++) {
             for (int j = 0; j < m; j++) {
-- 
2.43.0


From 8436768d22a78cb462e728ccca9f4cc9d3056972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:19 +0000
Subject: [PATCH 65/97] fix: berlekamp_massey for elements that carry their
 modulus

---
 include/altruct/algorithm/math/recurrence.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/recurrence.h b/include/altruct/algorithm/math/recurrence.h
index 5275f0c..512a423 100644
--- a/include/altruct/algorithm/math/recurrence.h
+++ b/include/altruct/algorithm/math/recurrence.h
@@ -144,14 +144,14 @@ polynom<T> berlekamp_massey_poly(const std::vector<A>& a, T id = T(1)) {
     T e0 = zeroOf(id), e1 = identityOf(id);
     int n = (int)a.size() / 2;
     int m = 2 * n - 1;
-    polynom<A> R, R0, R1;
+    polynom<A> R, R0(zeroOf(a[0])), R1(zeroOf(a[0]));
     polynom<T> V, V0, V1, Q;
     R0[m + 1] = identityOf(a[0]);
     for (int i = 0; i <= m; i++) {
         R1[i] = a[m - i];
     }
-    V0[0] = e0;
-    V1[0] = e1;
+    V0 = polynom<T>(e0);
+    V1 = polynom<T>(e1);
     while (R1.deg() >= n) {
         Q = R0 / R1;
         R = R0 - Q * R1;
-- 
2.43.0


From 7831c3268bf0e1c70024737d940c46803e4c98e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:12 +0000
Subject: [PATCH 66/97] fix: infinityT for floating point types

---
 include/altruct/algorithm/math/base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 11fa419..393e216 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -101,9 +101,9 @@ struct infinityT {
         return false;
     }
 };
-template<> struct infinityT<float> { bool is(const float& x) { return isinf(x); } };
-template<> struct infinityT<double> { bool is(const double& x) { return isinf(x); } };
-template<> struct infinityT<long double> { bool is(const long double& x) { return isinf(x); } };
+template<> struct infinityT<float> { static bool is(const float& x) { return std::isinf(x); } };
+template<> struct infinityT<double> { static bool is(const double& x) { return std::isinf(x); } };
+template<> struct infinityT<long double> { static bool is(const long double& x) { return std::isinf(x); } };
 
 /**
  * Gives the conjugate value of x.
-- 
2.43.0


From d3a2eff1c44c630c75075fd92163e1dfebbdb72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:12 +0000
Subject: [PATCH 67/97] fix: quadratic operations with its own element as a
 scalar

---
 include/altruct/structure/math/quadratic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/quadratic.h b/include/altruct/structure/math/quadratic.h
index 2f49b94..39b1e39 100644
--- a/include/altruct/structure/math/quadratic.h
+++ b/include/altruct/structure/math/quadratic.h
@@ -81,8 +81,8 @@ public:
     quadratic& operator /= (const quadratic& rhs) { return *this = *this * rhs.conjugate() / rhs.norm(); }
     quadratic& operator %= (const quadratic& rhs) { return *this = *this - rhs * (*this / rhs); }
 
-    quadratic& operator *= (const T& rhs) { a *= rhs; b *= rhs; return *this; }
-    quadratic& operator /= (const T& rhs) { a /= rhs; b /= rhs; return *this; }
+    quadratic& operator *= (const T& rhs) { T t = rhs; a *= t; b *= t; return *this; }
+    quadratic& operator /= (const T& rhs) { T t = rhs; a /= t; b /= t; return *this; }
 
     quadratic conjugate() const { return quadratic(a, -b, this->D()); }
     T norm() const { return a * a - b * b * this->D(); }
-- 
2.43.0


From d5bced51af931bdec952f3b920cb3be21f97ef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:12 +0000
Subject: [PATCH 68/97] fix: negation of infinity

---
 include/altruct/structure/math/with_infinity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/with_infinity.h b/include/altruct/structure/math/with_infinity.h
index 4a3f38b..70ca98a 100644
--- a/include/altruct/structure/math/with_infinity.h
+++ b/include/altruct/structure/math/with_infinity.h
@@ -47,7 +47,7 @@ public:
 
     with_infinity  operator +  (const with_infinity &rhs) const { with_infinity t(*this); t += rhs; return t; }
     with_infinity  operator -  (const with_infinity &rhs) const { with_infinity t(*this); t -= rhs; return t; }
-    with_infinity  operator -  ()                         const { with_infinity t(-v);              return t; }
+    with_infinity  operator -  ()                         const { with_infinity t(-v, is_inf);      return t; }
     with_infinity  operator *  (const with_infinity &rhs) const { with_infinity t(*this); t *= rhs; return t; }
     with_infinity  operator /  (const with_infinity &rhs) const { with_infinity t(*this); t /= rhs; return t; }
     with_infinity  operator %  (const with_infinity &rhs) const { with_infinity t(*this); t %= rhs; return t; }
-- 
2.43.0


From 3489ef49d244b45167a1622b89ccd644b20f7826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:12 +0000
Subject: [PATCH 69/97] fix: double_int increments, shifts, conversion and
 division

---
 .../altruct/structure/math/double_int.h        | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/experimental/include/altruct/structure/math/double_int.h b/experimental/include/altruct/structure/math/double_int.h
index 4c685ed..f5dcb29 100644
--- a/experimental/include/altruct/structure/math/double_int.h
+++ b/experimental/include/altruct/structure/math/double_int.h
@@ -38,7 +38,7 @@ public:
     T hi, lo;
 
     // CONSTRUCTORS
-    double_int(int val = 0) : hi(sign(val < 0)), lo(val) {}
+    double_int(int val = 0) : hi(T::type_bits < 32 ? val >> (T::type_bits % 32) : sign(val < 0)), lo(val) {}
     double_int(const T& val) : hi(sign(val.is_negative())), lo(val) {}
     double_int(const T& rhs_hi, const T& rhs_lo) : hi(rhs_hi), lo(rhs_lo) {}
     double_int(const double_int& rhs) : hi(rhs.hi), lo(rhs.lo) {}
@@ -78,8 +78,8 @@ public:
     // INCREMENT / DECREMENT
     double_int& operator ++ () { int carry = 1; return assign_adc(0, carry); }
     double_int& operator -- () { int borrow = 1;return assign_sbb(0, borrow); }
-    double_int operator ++ (int) { double_int r(*this); return ++r; }
-    double_int operator -- (int) { double_int r(*this); return --r; }
+    double_int operator ++ (int) { double_int r(*this); ++*this; return r; }
+    double_int operator -- (int) { double_int r(*this); --*this; return r; }
 
     // ADDITION / SUBTRACTION
     double_int& operator += (const double_int& rhs) { int carry = 0; return assign_adc(rhs, carry); }
@@ -121,8 +121,12 @@ public:
 
     // DIVISION
     static double_int unsigned_div(const double_int& a0, const double_int& b0, double_int *r = 0) {
-        if (a0.unsigned_lt(b0)) return 0;
-        double_int q = 0, a = a0, b = b0;
+        double_int q = 0, a = a0;
+        for (int k = b0.leading_zeros_count() - a0.leading_zeros_count(); k >= 0; k--) {
+            double_int b = b0 << k;
+            if (b.unsigned_lte(a)) a -= b, q |= double_int(1) << k;
+        }
+        if (r) *r = a;
 
         // TODO: do half machine-word divisions, not half double-int divisions !!
 
@@ -181,7 +185,7 @@ public:
             lo = 0;
         } else if (cnt > 0) {
             hi <<= cnt;
-            hi |= double_int(lo).assign_unsigned_shr(T::type_bits - cnt);
+            hi |= T(lo).assign_unsigned_shr(T::type_bits - cnt);
             lo <<= cnt;
         }
         return *this;
@@ -377,7 +381,7 @@ public:
     prim_int& operator /= (const prim_int& rhs) { v /= rhs.v; return *this; }
     prim_int& operator %= (const prim_int& rhs) { v %= rhs.v; return *this; }
 
-    prim_int& negate() { return prim_int(-v); }
+    prim_int& negate() { v = -v; return *this; }
 
     prim_int& operator &= (const prim_int& rhs) { v &= rhs.v; return *this; }
     prim_int& operator |= (const prim_int& rhs) { v |= rhs.v; return *this; }
-- 
2.43.0


From f19561d4c83243d15dc55e8e328dac506f425d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:22 +0000
Subject: [PATCH 70/97] fix: permutation comparison of equal mappings

---
 include/altruct/structure/math/permutation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/permutation.h b/include/altruct/structure/math/permutation.h
index 3433019..7af6eea 100644
--- a/include/altruct/structure/math/permutation.h
+++ b/include/altruct/structure/math/permutation.h
@@ -49,9 +49,9 @@ public:
     transpositions_t to_transpositions() const { return cycles_to_transpositions(cycles); }
 
     // comparison operators; note: size `n` of the list matters for the comparison
-    bool operator == (const permutation& p2) const { return n == p2.n && cycles == p2.cycles; }
+    bool operator == (const permutation& p2) const { return n == p2.n && to_line() == p2.to_line(); }
     bool operator != (const permutation& p2) const { return !(*this == p2); }
-    bool operator <  (const permutation& p2) const { return (n != p2.n) ? (n < p2.n) : (cycles < p2.cycles); }
+    bool operator <  (const permutation& p2) const { return (n != p2.n) ? (n < p2.n) : (line_to_cycles(to_line()) < line_to_cycles(p2.to_line())); }
     bool operator >  (const permutation& p2) const { return (p2 < *this); }
     bool operator <= (const permutation& p2) const { return !(p2 < *this); }
     bool operator >= (const permutation& p2) const { return !(*this < p2); }
-- 
2.43.0


From 2a663666d43014352c9a8e0af88e6ce77b1d2b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:22 +0000
Subject: [PATCH 71/97] fix: permutation powers with extreme exponents

---
 include/altruct/structure/math/permutation.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/altruct/structure/math/permutation.h b/include/altruct/structure/math/permutation.h
index 7af6eea..424e051 100644
--- a/include/altruct/structure/math/permutation.h
+++ b/include/altruct/structure/math/permutation.h
@@ -69,14 +69,13 @@ public:
 
     // this permutation applied `T` times
     permutation pow(int64_t T) const {
-        if (T < 0) return inv().pow(-T);
         cycles_t vc;
         std::vector<bool> u(n);
         for (const auto& cycle : cycles) {
-            I L = (I)cycle.size();
-            for (I i = 0; i < L; i++) {
+            int64_t L = (int64_t)cycle.size();
+            for (int64_t i = 0; i < L; i++) {
                 cycle_t c;
-                for (I j = i; !u[cycle[j]]; j = I((j + T) % L)) {
+                for (int64_t j = i; !u[cycle[j]]; j = (j + T % L + L) % L) {
                     c.push_back(cycle[j]);
                     u[cycle[j]] = true;
                 }
-- 
2.43.0


From e8341065904937aec18322d853e9bc71d34e565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:37 +0000
Subject: [PATCH 72/97] fix: permutation with narrow index types

---
 include/altruct/structure/math/permutation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/altruct/structure/math/permutation.h b/include/altruct/structure/math/permutation.h
index 424e051..b8e161e 100644
--- a/include/altruct/structure/math/permutation.h
+++ b/include/altruct/structure/math/permutation.h
@@ -113,7 +113,7 @@ public:
             transpositions += I((L - 1) * (m / g));
         }
         int wrong_parity = (parity >= 0) && (transpositions % 2 != parity);
-        if (wrong_parity && parity_len == -1) return permutation(); // root doesn't exist
+        if (wrong_parity && parity_len == I(-1)) return permutation(); // root doesn't exist
         // build result
         permutation result(n);
         for (I l = 0; l <= n; l++) {
@@ -234,7 +234,7 @@ public:
         I n = 0;
         for (const auto& c : cycles) {
             for (size_t i = 0; i < c.size(); i++) {
-                n = std::max(n, c[i] + 1);
+                n = std::max(n, I(c[i] + 1));
             }
         }
         return n;
@@ -243,8 +243,8 @@ public:
     static I size(const transpositions_t& transpositions) {
         I n = 0;
         for (auto t : transpositions) {
-            n = std::max(n, t.first + 1);
-            n = std::max(n, t.second + 1);
+            n = std::max(n, I(t.first + 1));
+            n = std::max(n, I(t.second + 1));
         }
         return n;
     }
-- 
2.43.0


From b3f31cb5ac28cc53e531c7062eed6a9e899f4aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:55 +0000
Subject: [PATCH 73/97] fix: pga negation of a blade subtracted from zero
 returns a dangling reference

---
 include/altruct/structure/math/pga.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/pga.h b/include/altruct/structure/math/pga.h
index 0a61d32..9e75971 100644
--- a/include/altruct/structure/math/pga.h
+++ b/include/altruct/structure/math/pga.h
@@ -552,7 +552,7 @@ auto operator + (const BL& bl, const BR& br) {
 
 // subtract
 template<typename B, typename T, IF_BLADE_TYPE(B, T)> const B& operator - (const B& b, zero<T>) { return b; }
-template<typename B, typename T, IF_NONZERO_BLADE_TYPE(B, T)> const B& operator - (zero<T>, const B& b) { return -b; }
+template<typename B, typename T, IF_NONZERO_BLADE_TYPE(B, T)> B operator - (zero<T>, const B& b) { return -b; }
 
 template<typename BL, typename BR, typename T = typename get<BL>::type, IF_NONZERO_BLADE_TYPE(BL, T), IF_NONZERO_BLADE_TYPE(BR, T)>
 auto operator - (const BL& bl, const BR& br) {
-- 
2.43.0


From 603d392f665bbab4d45f22ba0d92811cd92761d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:34 +0000
Subject: [PATCH 74/97] fix: pga zero bivectors for coefficients that carry
 their modulus

---
 include/altruct/structure/math/pga.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/altruct/structure/math/pga.h b/include/altruct/structure/math/pga.h
index 9e75971..dd35330 100644
--- a/include/altruct/structure/math/pga.h
+++ b/include/altruct/structure/math/pga.h
@@ -213,7 +213,7 @@ public:
     blade0<T> b0;
     blade2E<T> b2E;
 
-    PGA_CONSTRUCTORS_2(blade02E, blade0<T>, b0, zeroOf(b2E.biE.z), blade2E<T>, b2E, zeroOf(b0.s));
+    PGA_CONSTRUCTORS_2(blade02E, blade0<T>, b0, zeroOf(b2E.biE.z), blade2E<T>, b2E, make_zero_vec(b0.s));
     PGA_CLOSED_OPERATORS_2(blade02E, T, b0, b2E);
     PGA_COMPOSITE_GETTERS(blade02E, b0, b2E);
     auto inv() const { return rev() / norm2(); }
@@ -225,7 +225,7 @@ public:
     blade0<T> b0;
     blade2e<T> b2e;
 
-    PGA_CONSTRUCTORS_2(blade02e, blade0<T>, b0, zeroOf(b2e.bie.z), blade2e<T>, b2e, zeroOf(b0.s));
+    PGA_CONSTRUCTORS_2(blade02e, blade0<T>, b0, zeroOf(b2e.bie.z), blade2e<T>, b2e, make_zero_vec(b0.s));
     PGA_CLOSED_OPERATORS_2(blade02e, T, b0, b2e);
     PGA_COMPOSITE_GETTERS(blade02e, b0, b2e);
     auto inv() const { return rev() / norm2(); }
@@ -237,7 +237,7 @@ public:
     blade2E<T> b2E;
     blade2e<T> b2e;
 
-    PGA_CONSTRUCTORS_2(blade22, blade2E<T>, b2E, zeroOf(b2e.bie.z), blade2e<T>, b2e, zeroOf(b2E.biE.z));
+    PGA_CONSTRUCTORS_2(blade22, blade2E<T>, b2E, make_zero_vec(b2e.bie.z), blade2e<T>, b2e, make_zero_vec(b2E.biE.z));
     PGA_CLOSED_OPERATORS_2(blade22, T, b2E, b2e);
     PGA_COMPOSITE_GETTERS(blade22, b2E, b2e);
     auto inv() const { return rev() / norm2(); } // only works when b2E and b2e are perpendicular! use blade024::inv() otherwise
@@ -249,7 +249,7 @@ public:
     blade2E<T> b2E;
     blade4<T> b4;
 
-    PGA_CONSTRUCTORS_2(blade2E4, blade2E<T>, b2E, zeroOf(b4.e0123), blade4<T>, b4, zeroOf(b2E.biE.z));
+    PGA_CONSTRUCTORS_2(blade2E4, blade2E<T>, b2E, make_zero_vec(b4.e0123), blade4<T>, b4, zeroOf(b2E.biE.z));
     PGA_CLOSED_OPERATORS_2(blade2E4, T, b2E, b4);
     PGA_COMPOSITE_GETTERS(blade2E4, b2E, b4);
     auto inv() const { return rev() / norm2(); }
@@ -261,7 +261,7 @@ public:
     blade2e<T> b2e;
     blade4<T> b4;
 
-    PGA_CONSTRUCTORS_2(blade2e4, blade2e<T>, b2e, zeroOf(b4.e0123), blade4<T>, b4, zeroOf(b2e.bie.z));
+    PGA_CONSTRUCTORS_2(blade2e4, blade2e<T>, b2e, make_zero_vec(b4.e0123), blade4<T>, b4, zeroOf(b2e.bie.z));
     PGA_CLOSED_OPERATORS_2(blade2e4, T, b2e, b4);
     PGA_COMPOSITE_GETTERS(blade2e4, b2e, b4);
     auto inv() const { return rev() / norm2(); }
@@ -829,9 +829,9 @@ template<typename T> auto operator % (const blade1<T>& a, const blade13<T>& b) {
 template<typename T> auto operator % (const blade2E<T>& a, const blade0<T>& b) { return a * b.norm2(); }
 template<typename T> auto operator % (const blade2E<T>& a, const blade1<T>& b) { return blade2E<T>(a.biE * b.diff2() - b.v * ((a.biE & b.v) * castOf(a.biE.z, 2))) + blade2e<T>(b.e0 * castOf(a.biE.z, 2) * (a.biE ^ b.v)); }
 template<typename T> auto operator % (const blade2E<T>& a, const blade2E<T>& b) { return blade2E<T>(a.biE * b.diff2() + b.biE * ((a.biE & b.biE) * castOf(a.biE.z, 2))); }
-template<typename T> auto operator % (const blade2E<T>& a, const blade2e<T>& b) { return blade2E<T>(zeroOf(a.biE.z)); }
+template<typename T> auto operator % (const blade2E<T>& a, const blade2e<T>& b) { return blade2E<T>(make_zero_vec(a.biE.z)); }
 template<typename T> auto operator % (const blade2E<T>& a, const blade3<T>& b) { return blade2E<T>(a.biE * b.diff2()) + blade2e<T>(b.e123 * castOf(a.biE.z, 2) * (a.biE ^ b.triP)); }
-template<typename T> auto operator % (const blade2E<T>& a, const blade4<T>& b) { return blade2E<T>(zeroOf(a.biE.z)); }
+template<typename T> auto operator % (const blade2E<T>& a, const blade4<T>& b) { return blade2E<T>(make_zero_vec(a.biE.z)); }
 template<typename T> auto operator % (const blade2E<T>& a, const blade02E<T>& b) {
     const auto c2 = castOf(a.biE.z, 2); PGA_DOT_CROSS(a.biE, b.b2E.biE, abiE_o_bbiE, abiE_x_bbiE);
     return blade2E<T>(a.biE * b.diff2() + (b.b2E.biE * abiE_o_bbiE + b.b0.s * abiE_x_bbiE) * c2);
@@ -849,7 +849,7 @@ template<typename T> auto operator % (const blade2E<T>& a, const blade2E4<T>& b)
     return blade2E<T>(a.biE * b.diff2() + b.b2E.biE * (abiE_o_bbiE * c2)) + blade2e<T>(-c2 * b.b4.e0123 * abiE_x_bbiE);
 }
 template<typename T> auto operator % (const blade2E<T>& a, const blade2e4<T>& b) {
-    return blade2E<T>(zeroOf(a.biE.z));
+    return blade2E<T>(make_zero_vec(a.biE.z));
 }
 template<typename T> auto operator % (const blade2E<T>& a, const blade024<T>& b) {
     PGA_DEF_024(b, c2); PGA_DOT_CROSS(a.biE, bbiE, abiE_o_bbiE, abiE_x_bbiE); PGA_DOT_CROSS(a.biE, bbie, abiE_o_bbie, abiE_x_bbie);
@@ -865,9 +865,9 @@ template<typename T> auto operator % (const blade2E<T>& a, const blade13<T>& b)
 template<typename T> auto operator % (const blade2e<T>& a, const blade0<T>& b) { return a * b.norm2(); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade1<T>& b) { return blade2e<T>(a.bie * -b.diff2() + b.v * (a.bie & b.v) * castOf(a.bie.z, 2)); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade2E<T>& b) { return blade2e<T>(a.bie * b.diff2() + b.biE * ((a.bie & b.biE) * castOf(a.bie.z, 2))); }
-template<typename T> auto operator % (const blade2e<T>& a, const blade2e<T>& b) { return blade2e<T>(zeroOf(a.bie.z)); }
+template<typename T> auto operator % (const blade2e<T>& a, const blade2e<T>& b) { return blade2e<T>(make_zero_vec(a.bie.z)); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade3<T>& b) { return a * b.norm2(); }
-template<typename T> auto operator % (const blade2e<T>& a, const blade4<T>& b) { return blade2e<T>(zeroOf(a.bie.z)); }
+template<typename T> auto operator % (const blade2e<T>& a, const blade4<T>& b) { return blade2e<T>(make_zero_vec(a.bie.z)); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade02E<T>& b) {
     const auto c2 = castOf(a.bie.z, 2); PGA_DOT_CROSS(a.bie, b.b2E.biE, abie_o_bbiE, abie_x_bbiE);
     return blade2e<T>(a.bie * b.diff2() + (b.b0.s * abie_x_bbiE + b.b2E.biE * abie_o_bbiE) * c2);
@@ -875,7 +875,7 @@ template<typename T> auto operator % (const blade2e<T>& a, const blade02E<T>& b)
 template<typename T> auto operator % (const blade2e<T>& a, const blade02e<T>& b) { return a * b.norm2(); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade22<T>& b) { return a % b.b2E; }
 template<typename T> auto operator % (const blade2e<T>& a, const blade2E4<T>& b) { return a % b.b2E; }
-template<typename T> auto operator % (const blade2e<T>& a, const blade2e4<T>& b) { return blade2e<T>(zeroOf(a.bie.z)); }
+template<typename T> auto operator % (const blade2e<T>& a, const blade2e4<T>& b) { return blade2e<T>(make_zero_vec(a.bie.z)); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade024<T>& b) {
     PGA_DEF_024(b, c2); PGA_DOT_CROSS(a.bie, bbiE, abie_o_bbiE, abie_x_bbiE);
     return blade2e<T>(a.bie * b.diff2() + (bs * abie_x_bbiE + bbiE * abie_o_bbiE) * c2);
-- 
2.43.0


From ccc466f7a0dc9e1208d5dd9937c711cf7b9c916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:11 +0000
Subject: [PATCH 75/97] fix: scaling a vector or a multivector by its own
 element

---
 include/altruct/structure/math/clifford3.h | 16 ++++++++--------
 include/altruct/structure/math/pga.h       |  4 ++--
 include/altruct/structure/math/vector2d.h  |  4 ++--
 include/altruct/structure/math/vector3d.h  |  4 ++--
 include/altruct/structure/math/vectorNd.h  | 10 +++++-----
 5 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/altruct/structure/math/clifford3.h b/include/altruct/structure/math/clifford3.h
index 624c340..e77fbb0 100644
--- a/include/altruct/structure/math/clifford3.h
+++ b/include/altruct/structure/math/clifford3.h
@@ -44,8 +44,8 @@ public:
     rotor& operator *= (const rotor& r) { return *this = *this * r; }
     rotor& operator /= (const rotor& r) { return *this = *this / r; }
 
-    rotor& operator *= (const T& t) { s *= t; yz *= t; zx *= t; xy *= t; return *this; }
-    rotor& operator /= (const T& t) { s /= t; yz /= t; zx /= t; xy /= t; return *this; }
+    rotor& operator *= (T t) { s *= t; yz *= t; zx *= t; xy *= t; return *this; }
+    rotor& operator /= (T t) { s /= t; yz /= t; zx /= t; xy /= t; return *this; }
 
     rotor  operator +  (const rotor& r) const { return rotor(s + r.s, yz + r.yz, zx + r.zx, xy + r.xy); }
     rotor  operator -  (const rotor& r) const { return rotor(s - r.s, yz - r.yz, zx - r.zx, xy - r.xy); }
@@ -141,8 +141,8 @@ public:
     vector& operator *= (const rotor<T>& r) { return *this = *this * r; }
     vector& operator /= (const rotor<T>& r) { return *this = *this / r; }
 
-    vector& operator *= (const T& t) { x *= t; y *= t; z *= t; w *= t; return *this; }
-    vector& operator /= (const T& t) { x /= t; y /= t; z /= t; w /= t; return *this; }
+    vector& operator *= (T t) { x *= t; y *= t; z *= t; w *= t; return *this; }
+    vector& operator /= (T t) { x /= t; y /= t; z /= t; w /= t; return *this; }
 
     vector   operator +  (const vector& v) const { return vector(x + v.x, y + v.y, z + v.z, w + v.w); }
     vector   operator -  (const vector& v) const { return vector(x - v.x, y - v.y, z - v.z, w - v.w); }
@@ -271,8 +271,8 @@ public:
     multivector& operator += (const multivector& m) { r += m.r; v += m.v; return *this; }
     multivector& operator -= (const multivector& m) { r -= m.r; v -= m.v; return *this; }
 
-    multivector& operator *= (const rotor<T>& r2) { r *= r2; v *= r2; return *this; }
-    multivector& operator /= (const rotor<T>& r2) { r /= r2; v /= r2; return *this; } // return *this *= r2.inv();
+    multivector& operator *= (rotor<T> r2) { r *= r2; v *= r2; return *this; }
+    multivector& operator /= (rotor<T> r2) { r /= r2; v /= r2; return *this; } // return *this *= r2.inv();
 
     multivector& operator *= (const vector<T>& v2) { return *this = *this * v2; }
     multivector& operator /= (const vector<T>& v2) { return *this = *this / v2; }
@@ -280,8 +280,8 @@ public:
     multivector& operator *= (const multivector& m) { return *this = *this * m; }
     multivector& operator /= (const multivector& m) { return *this = *this / m; }
 
-    multivector& operator *= (const T& t) { r *= t; v *= t; return *this; }
-    multivector& operator /= (const T& t) { r /= t; v /= t; return *this; }
+    multivector& operator *= (T t) { r *= t; v *= t; return *this; }
+    multivector& operator /= (T t) { r /= t; v /= t; return *this; }
 
     multivector  operator +  (const rotor<T>& r2) const { return multivector(r + r2, v); }
     multivector  operator -  (const rotor<T>& r2) const { return multivector(r - r2, v); }
diff --git a/include/altruct/structure/math/pga.h b/include/altruct/structure/math/pga.h
index dd35330..a3c99f4 100644
--- a/include/altruct/structure/math/pga.h
+++ b/include/altruct/structure/math/pga.h
@@ -91,8 +91,8 @@ vector3d<T> make_zero_vec(const T& v) { return vector3d<T>(zeroOf(v), zeroOf(v),
 #define PGA_CLOSED_OPERATORS_2(B, T, pl, pr)                                      \
     B& operator += (const B& rhs) { pl += rhs.pl; pr += rhs.pr; return *this; }   \
     B& operator -= (const B& rhs) { pl -= rhs.pl; pr -= rhs.pr; return *this; }   \
-    B& operator *= (const T& rhs) { pl *= rhs; pr *= rhs; return *this; }         \
-    B& operator /= (const T& rhs) { pl /= rhs; pr /= rhs; return *this; }         \
+    B& operator *= (T rhs) { pl *= rhs; pr *= rhs; return *this; }                \
+    B& operator /= (T rhs) { pl /= rhs; pr /= rhs; return *this; }                \
                                                                                   \
     B  operator +  ()             const { return B(+pl, +pr); }                   \
     B  operator -  ()             const { return B(-pl, -pr); }                   \
diff --git a/include/altruct/structure/math/vector2d.h b/include/altruct/structure/math/vector2d.h
index fa2ccd6..dd74606 100644
--- a/include/altruct/structure/math/vector2d.h
+++ b/include/altruct/structure/math/vector2d.h
@@ -29,8 +29,8 @@ public:
     vector2d& operator *= (const vector2d& v) { x *= v.x; y *= v.y; return *this; } // (element by element)
     vector2d& operator /= (const vector2d& v) { x /= v.x; y /= v.y; return *this; } // (element by element)
 
-    vector2d& operator *= (const T& t) { x *= t; y *= t; return (*this); }
-    vector2d& operator /= (const T& t) { x /= t; y /= t; return (*this); }
+    vector2d& operator *= (T t) { x *= t; y *= t; return (*this); }
+    vector2d& operator /= (T t) { x /= t; y /= t; return (*this); }
 
     vector2d  operator +  (const vector2d& v) const { return vector2d(x + v.x, y + v.y); }
     vector2d  operator -  (const vector2d& v) const { return vector2d(x - v.x, y - v.y); }
diff --git a/include/altruct/structure/math/vector3d.h b/include/altruct/structure/math/vector3d.h
index 0b88d2d..c61ced9 100644
--- a/include/altruct/structure/math/vector3d.h
+++ b/include/altruct/structure/math/vector3d.h
@@ -29,8 +29,8 @@ public:
     vector3d& operator *= (const vector3d& v) { x *= v.x; y *= v.y; z *= v.z; return *this; } // element by element
     vector3d& operator /= (const vector3d& v) { x /= v.x; y /= v.y; z /= v.z; return *this; } // element by element
 
-    vector3d& operator *= (const T& t) { x *= t; y *= t; z *= t; return *this; }
-    vector3d& operator /= (const T& t) { x /= t; y /= t; z /= t; return *this; }
+    vector3d& operator *= (T t) { x *= t; y *= t; z *= t; return *this; }
+    vector3d& operator /= (T t) { x /= t; y /= t; z /= t; return *this; }
 
     vector3d  operator +  ()                  const { return vector3d(+x, +y, +z); }
     vector3d  operator -  ()                  const { return vector3d(-x, -y, -z); }
diff --git a/include/altruct/structure/math/vectorNd.h b/include/altruct/structure/math/vectorNd.h
index 2219482..0937aa7 100644
--- a/include/altruct/structure/math/vectorNd.h
+++ b/include/altruct/structure/math/vectorNd.h
@@ -68,11 +68,11 @@ public:
     vectorNd& operator /= (const vectorNd& rhs) { for (int i = 0; i < N; i++) a[i] /= rhs.a[i]; return *this; }
     vectorNd& operator %= (const vectorNd& rhs) { for (int i = 0; i < N; i++) a[i] %= rhs.a[i]; return *this; }
 
-    vectorNd& operator += (const T& rhs) { for (int i = 0; i < N; i++) a[i] += rhs; return *this; }
-    vectorNd& operator -= (const T& rhs) { for (int i = 0; i < N; i++) a[i] -= rhs; return *this; }
-    vectorNd& operator *= (const T& rhs) { for (int i = 0; i < N; i++) a[i] *= rhs; return *this; }
-    vectorNd& operator /= (const T& rhs) { for (int i = 0; i < N; i++) a[i] /= rhs; return *this; }
-    vectorNd& operator %= (const T& rhs) { for (int i = 0; i < N; i++) a[i] %= rhs; return *this; }
+    vectorNd& operator += (T rhs) { for (int i = 0; i < N; i++) a[i] += rhs; return *this; }
+    vectorNd& operator -= (T rhs) { for (int i = 0; i < N; i++) a[i] -= rhs; return *this; }
+    vectorNd& operator *= (T rhs) { for (int i = 0; i < N; i++) a[i] *= rhs; return *this; }
+    vectorNd& operator /= (T rhs) { for (int i = 0; i < N; i++) a[i] /= rhs; return *this; }
+    vectorNd& operator %= (T rhs) { for (int i = 0; i < N; i++) a[i] %= rhs; return *this; }
 
     T abs2() const { T r = 0; for (int i = 0; i < N; i++) r += a[i] * a[i]; return r; }
 };
-- 
2.43.0


From 9789d9d9e11f39d8cc4016b2bb032b0937c4dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:59 +0000
Subject: [PATCH 76/97] fix: inverse factorials from a factorial beyond the
 table

---
 include/altruct/algorithm/math/ranges.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/altruct/algorithm/math/ranges.h b/include/altruct/algorithm/math/ranges.h
index c0937be..92022f1 100644
--- a/include/altruct/algorithm/math/ranges.h
+++ b/include/altruct/algorithm/math/ranges.h
@@ -80,6 +80,9 @@ void inv_factorials(It begin, It end, T fact_k = T(1), size_t k = 1) {
         val_k += id, fact_k *= val_k;
     }
     T ifact = id / fact_k;
+    for (size_t n = std::distance(begin, end); k > n; --k) {
+        ifact *= val_k, val_k -= id;
+    }
     for (It it = end; it != begin; ) {
         *--it = ifact; ifact *= val_k; val_k -= id;
     }
-- 
2.43.0


From b7662b6acdd44e382d1b53af8191e805849b07b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:59 +0000
Subject: [PATCH 77/97] fix: inverses of an empty range

---
 include/altruct/algorithm/math/ranges.h           | 1 +
 include/altruct/structure/math/factorial_holder.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/altruct/algorithm/math/ranges.h b/include/altruct/algorithm/math/ranges.h
index 92022f1..2057e24 100644
--- a/include/altruct/algorithm/math/ranges.h
+++ b/include/altruct/algorithm/math/ranges.h
@@ -101,6 +101,7 @@ std::vector<T> make_inv_factorials(size_t n, T fact_k = T(1), size_t k = 1) {
  */
 template<typename It, typename T = typename std::iterator_traits<It>::value_type>
 void inverses_from_ifact(It begin, It end, T id = T(1)) {
+    if (begin == end) return;
     T fact = id, i = id;
     *begin = zeroOf(id);
     for (It it = ++begin; it != end; ++it) {
diff --git a/include/altruct/structure/math/factorial_holder.h b/include/altruct/structure/math/factorial_holder.h
index 34b902c..9672848 100644
--- a/include/altruct/structure/math/factorial_holder.h
+++ b/include/altruct/structure/math/factorial_holder.h
@@ -19,6 +19,7 @@ private:
 public:
     factorial_holder(int sz, T id = T(1)) : sz(sz) {
         _fact = make_factorials<T>(sz, id);
+        if (sz < 1) return;
         _ifact = make_inv_factorials<T>(sz, _fact[sz - 1], sz - 1);
         _inv = _ifact; inverses_from_ifact(_inv.begin(), _inv.end(), id);
     }
-- 
2.43.0


From 4c93c5720fe82b76e9dfa5062d6aeaaab270139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:59 +0000
Subject: [PATCH 78/97] fix: mex of a container with repeated elements

---
 include/altruct/algorithm/math/reduce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/reduce.h b/include/altruct/algorithm/math/reduce.h
index bb1fd70..8f990e9 100644
--- a/include/altruct/algorithm/math/reduce.h
+++ b/include/altruct/algorithm/math/reduce.h
@@ -76,7 +76,7 @@ T reduce_max(const C& c, T id = -std::numeric_limits<T>::max()) {
  */
 template<typename C, typename T = typename C::value_type>
 T reduce_mex(const C& c, T id = 0) {
-    return reduce(c, [](const T& r, const T& e) { return r < e ? r : r + 1; }, id);
+    return reduce(c, [](const T& r, const T& e) { return r == e ? r + 1 : r; }, id);
 }
 
 } // math
-- 
2.43.0


From 728064f88d8c5b6c06d2017af4e59e908514af5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:53 +0000
Subject: [PATCH 79/97] fix: default bounds of reduce_min and reduce_max

---
 include/altruct/algorithm/math/reduce.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/reduce.h b/include/altruct/algorithm/math/reduce.h
index 8f990e9..10dbb52 100644
--- a/include/altruct/algorithm/math/reduce.h
+++ b/include/altruct/algorithm/math/reduce.h
@@ -46,6 +46,14 @@ T reduce_product(const C& c, T id = T(1)) {
     return reduce(c, [](const T& r, const T& e) { return r * e;  }, id);
 }
 
+/**
+ * Infinity of the given type, or its biggest value if it has none.
+ */
+template<typename T>
+T reduce_infinity() {
+    return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
+}
+
 /**
  * Minimum of the elements in the container.
  *
@@ -53,7 +61,7 @@ T reduce_product(const C& c, T id = T(1)) {
  * @param id - identity element, default +infinity
  */
 template<typename C, typename T = typename C::value_type>
-T reduce_min(const C& c, T id = +std::numeric_limits<T>::max()) {
+T reduce_min(const C& c, T id = reduce_infinity<T>()) {
     return reduce(c, [](const T& r, const T& e) { return e < r ? e : r; }, id);
 }
 
@@ -64,7 +72,7 @@ T reduce_min(const C& c, T id = +std::numeric_limits<T>::max()) {
  * @param id - identity element, default -infinity
  */
 template<typename C, typename T = typename C::value_type>
-T reduce_max(const C& c, T id = -std::numeric_limits<T>::max()) {
+T reduce_max(const C& c, T id = std::numeric_limits<T>::is_signed ? -reduce_infinity<T>() : std::numeric_limits<T>::lowest()) {
     return reduce(c, [](const T& r, const T& e) { return r < e ? e : r; }, id);
 }
 
-- 
2.43.0


From b0c09209c272aff8359e2c16ed81af9aefc9189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:00 +0000
Subject: [PATCH 80/97] fix: convergents of negative numbers and of numbers
 with a large integer part

---
 include/altruct/algorithm/math/convergents.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/convergents.h b/include/altruct/algorithm/math/convergents.h
index 8e7bdf9..c7659ea 100644
--- a/include/altruct/algorithm/math/convergents.h
+++ b/include/altruct/algorithm/math/convergents.h
@@ -66,7 +66,8 @@ std::vector<std::pair<I, I>> convergents(const std::vector<I> &va, I semi_conver
         // Technically, if a_i is even, a_i / 2 is admissible only if the
         // corresponding semiconvergent is better than the previous convergent.
         // We do not check for it here however.
-        I a0 = a_i - std::min<I>(semi_convergents, a_i / 2);
+        // The integer part has no semi-convergents.
+        I a0 = (q1 == 0) ? a_i : I(a_i - std::max<I>(0, std::min<I>(semi_convergents, a_i / 2)));
         for (I a = a0; a <= a_i; a++) {
             p = a * p1 + p2;
             q = a * q1 + q2;
-- 
2.43.0


From 2cde8012dc7c4d12949baa78b43ac988bb6461bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:42 +0000
Subject: [PATCH 81/97] fix: Farey neighbours of negative fractions

---
 include/altruct/algorithm/math/fractions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/fractions.h b/include/altruct/algorithm/math/fractions.h
index bf70a92..27a11bd 100644
--- a/include/altruct/algorithm/math/fractions.h
+++ b/include/altruct/algorithm/math/fractions.h
@@ -21,7 +21,7 @@ template<typename I>
 fraction<I> farey_neighbour(const I& n, const fraction<I>& f_prev, const fraction<I>& f) {
     I p = f_prev.p, q = f_prev.q;
     if (f_prev.q == 0) {
-        gcd_ex(f.q, f.p, &p, &q);
+        if (gcd_ex(f.q, f.p, &p, &q) < 0) p = -p, q = -q;
         (f_prev.p < 0) ? p = -p : q = -q;
     }
     I k = (n + q) / f.q;
-- 
2.43.0


From 2584d78d7510cd246c5e2f363337073f056c86db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:08 +0000
Subject: [PATCH 82/97] fix: missing classes of the generalized Pell equation

---
 include/altruct/algorithm/math/pell.h | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/altruct/algorithm/math/pell.h b/include/altruct/algorithm/math/pell.h
index b246c47..f76e60c 100644
--- a/include/altruct/algorithm/math/pell.h
+++ b/include/altruct/algorithm/math/pell.h
@@ -168,22 +168,19 @@ int pell_mz(I D, I m, I z, I& x0, I& y0) {
     int i = 1; while (i < (int)Q.size() && Q[i] != +1 && Q[i] != -1) i++;
     if (i >= (int)Q.size()) return 0;
     // check for solution by testing Q[i] == (-1)^i sign(m)
-    if (Q[i] != ((i % 2 == 1) ? -ms : +ms)) {
+    auto is_solution = [&](int i) { return Q[i] == ((i % 2 == 1) ? -ms : +ms); };
+    while (i < (int)Q.size() && !is_solution(i)) i++;
+    if (i >= (int)Q.size() && l % 2 == 1) {
         // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = -m;
         // do another period to get +m
         pell_PQa<I>(D, P, Q, a, A, B, G);
-        i += l;
-    }
-    if (Q[i] != ((i % 2 == 1) ? -ms : +ms)) {
-        // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = -m;
-        // -m again, +m will never happen
-        return 0;
-    }
-    else {
-        // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = +m;
-        x0 = G[i - 1], y0 = B[i - 1];
-        return l;
+        while (i < (int)Q.size() && !is_solution(i)) i++;
     }
+    // -m again, +m will never happen
+    if (i >= (int)Q.size()) return 0;
+    // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = +m;
+    x0 = G[i - 1], y0 = B[i - 1];
+    return l;
 }
 
 /**
-- 
2.43.0


From 9867ca262d7c6420cd7cee6b82ab2894e78941fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:05 +0000
Subject: [PATCH 83/97] fix: listing the solutions of the generalized Pell
 equation

---
 include/altruct/algorithm/math/pell.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/altruct/algorithm/math/pell.h b/include/altruct/algorithm/math/pell.h
index f76e60c..129f553 100644
--- a/include/altruct/algorithm/math/pell.h
+++ b/include/altruct/algorithm/math/pell.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <type_traits>
 #include <vector>
 
@@ -267,16 +268,23 @@ void pell(I D, I N, const std::vector<std::pair<P, int>>& fN, I x_max, I y_max,
     quadraticX<I> s1(0, 0, D);
     if (pell1<I>(D, 1, s1.a, s1.b)) {
         auto vs = pell<I>(D, N, fN);
+        // start from the minimal positive solution of each class
+        for (auto& s : vs) {
+            if (s.a <= 0 && s.b <= 0) s = -s;
+            while (s.a < 0 || s.b < 0) {
+                s *= s1;
+                if (s.a <= 0 && s.b <= 0) s = -s;
+            }
+        }
+        std::sort(vs.begin(), vs.end(), [](const quadraticX<I>& s, const quadraticX<I>& t) { return s.a < t.a; });
         while (true) {
             auto size0 = size;
             for (auto& s : vs) {
-                auto t = s; s *= s1;
-                if (s.a <= 0 && s.b <= 0) s = -s;
-                if (t.a < 0 || t.b < 0) continue;
-                if (x_max > 0 && t.a > x_max) continue;
-                if (y_max > 0 && t.b > y_max) continue;
+                if (x_max > 0 && s.a > x_max) continue;
+                if (y_max > 0 && s.b > y_max) continue;
                 if (count > 0 && size >= count) continue;
-                visitor(t); size++;
+                visitor(s); size++;
+                s *= s1;
             }
             if (size == size0) break;
         }
-- 
2.43.0


From 99a01236c3f1bca62982575678583d70ae40b693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:49 +0000
Subject: [PATCH 84/97] fix: pythagorean triple generators above the bound

---
 include/altruct/algorithm/math/triples.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/triples.h b/include/altruct/algorithm/math/triples.h
index bc7b866..dd5f885 100644
--- a/include/altruct/algorithm/math/triples.h
+++ b/include/altruct/algorithm/math/triples.h
@@ -127,7 +127,10 @@ std::vector<triple<I>> generate_pythagorean_triples(I n, const std::vector<tripl
         { {1, -2, 2}, {2, -1, 2}, {2, -2, 3} },
         { {2, 1, 2}, {1, 2, 2}, {2, 2, 3} },
     };
-    std::vector<triple<I>> vt = generators;
+    std::vector<triple<I>> vt;
+    for (const auto& t : generators) {
+        if (max_element(t) <= n) vt.push_back(t);
+    }
     for (size_t i = 0; i < vt.size(); i++) {
         for (int j = 0; j < 3; j++) {
             if (j == 1 && vt[i].a == vt[i].b) continue; // same triple as for j = 0
-- 
2.43.0


From 17940dd783145ccace451ba117837bee0edc1fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:33 +0000
Subject: [PATCH 85/97] fix: sum_pow for more than one modulus

---
 include/altruct/algorithm/math/sums.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/altruct/algorithm/math/sums.h b/include/altruct/algorithm/math/sums.h
index 187ac4e..0a19cab 100644
--- a/include/altruct/algorithm/math/sums.h
+++ b/include/altruct/algorithm/math/sums.h
@@ -85,12 +85,9 @@ T sum_pow(int p, I N, const std::vector<T>& B) {
  */
 template<typename T, typename I>
 T sum_pow(int p, I n, T id = T(1)) {
-    static std::vector<T> B;
-    if (B.size() < p + 1) {
-        int sz = (int)(B.size() + B.size() / 2);
-        B = bernoulli_b<T>(std::max(p, sz), id);
-    }
-    return sum_pow(p, n, B);
+    // no caching across calls, `id` may belong to a different ring each time
+    if (p <= 3) return sum_pow(p, n, std::vector<T>{ id });
+    return sum_pow(p, n, bernoulli_b<T>(p, id));
 }
 
 /**
-- 
2.43.0


From f5cf89d69c2ffbd41c9c75c2fa82ab0ee9193f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:27 +0000
Subject: [PATCH 86/97] fix: sum over an unsigned range starting at zero

---
 include/altruct/algorithm/math/sums.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/sums.h b/include/altruct/algorithm/math/sums.h
index 0a19cab..3e6ecdc 100644
--- a/include/altruct/algorithm/math/sums.h
+++ b/include/altruct/algorithm/math/sums.h
@@ -42,8 +42,10 @@ T sum_ratio(I a, I b, I q, I n, T zero = T(0)) {
 template<typename T, typename I, typename F>
 T sum(F f, I a, I b, T zero = T(0)) {
     T r = zero;
-    for (I k = b; k >= a; k--) {
+    if (b < a) return r;
+    for (I k = b; ; k--) {
         r += f(k);
+        if (k == a) break; // `k >= a` always holds for unsigned `a = 0`
     }
     return r;
 }
-- 
2.43.0


From 9e2a00177011c56a6549f1afe72310442460896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:58 +0000
Subject: [PATCH 87/97] fix: prime_pi memo keys for 32-bit arguments

---
 include/altruct/algorithm/math/prime_pi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/prime_pi.h b/include/altruct/algorithm/math/prime_pi.h
index dacd1eb..8b27b6f 100644
--- a/include/altruct/algorithm/math/prime_pi.h
+++ b/include/altruct/algorithm/math/prime_pi.h
@@ -21,7 +21,7 @@ template<typename I, typename J>
 I prime_pi_PHI_key(I m, J n) {
     // this works for I=i64, m < 2^48 (10^14), n < 2^16
     // this works for I=i32, m < 2^24 (10^7), n < 2^8
-    return (m << 16) + n;
+    return I((uint64_t(m) << (sizeof(I) * 2)) + uint64_t(n));
 }
 template<typename I, typename J>
 std::unordered_map<I, I>& prime_pi_PHI_tbl() {
-- 
2.43.0


From f43a7f777faccc8fec9e2e1341b9830a56a8f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:30 +0000
Subject: [PATCH 88/97] fix: dirichlet division by a function with g(1) != 1

---
 include/altruct/algorithm/math/divisor_sums.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index a93a1a2..9e90a6c 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -218,6 +218,7 @@ void dirichlet_division_multiplicative(TBL& h, F1 f, F2 g, int n, int* pa, int m
     for (int i = 1; i < n; i++) {
         h[i] = e1;
     }
+    auto ig1 = e1 / castOf(e1, g(1));
     int q[32]; T gq[32], hq[32];
     for (int i = 0; i < m && pa[i] < n; i++) {
         int m = 0;
@@ -231,6 +232,7 @@ void dirichlet_division_multiplicative(TBL& h, F1 f, F2 g, int n, int* pa, int m
             for (int j = 0; j < k; j++) {
                 hq[k] -= gq[k - j] * hq[j];
             }
+            hq[k] *= ig1;
             h[q[k]] = hq[k];
         }
     }
@@ -330,11 +332,12 @@ void dirichlet_convolution_completely_multiplicative(TBL& h, F1 f, F2 g, int n,
 template<typename F1, typename F2, typename TBL>
 void dirichlet_division_completely_multiplicative(TBL& h, F1 f, F2 g, int n, int* pf) {
     auto e1 = identityOf(castOf(h[0], f(1))); // TODO: pass via argument?
+    auto ig1 = e1 / castOf(e1, g(1));
     for (int i = 1; i < n; i++) {
         h[i] = e1;
     }
     for (int p = 2; p < n; p++) {
-        if (pf[p] == p) h[p] = castOf(e1, f(p)) - castOf(e1, g(p));
+        if (pf[p] == p) h[p] = (castOf(e1, f(p)) - castOf(e1, g(p))) * ig1;
     }
     calc_completely_multiplicative(h, n, pf);
 }
-- 
2.43.0


From 389953150793dfbc7936010c0c451d9f65fc93ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:58 +0000
Subject: [PATCH 89/97] fix: sieve_m_multiplicative into a reused table

---
 include/altruct/algorithm/math/divisor_sums.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index 9e90a6c..924fbfa 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -443,7 +443,7 @@ template<typename F1, typename F2, typename TBL>
 void sieve_m_multiplicative_inv(TBL& M, F1 t, F2 p_inv, int n, int* pa, int m) {
     auto dt = [&](int n){ return (n == 1) ? t(n) : t(n) - t(n - 1); };
     dirichlet_convolution_multiplicative(M, p_inv, dt, n, pa, m);
-    for (int i = 1; i < n; i++) M[i] += M[i - 1];
+    for (int i = 2; i < n; i++) M[i] += M[i - 1];
 }
 template<typename F1, typename F2, typename TBL>
 void sieve_m_multiplicative(TBL& M, F1 t, F2 p, int n, int* pa, int m) {
-- 
2.43.0


From 47fd63c58edb4b59c9da9d3caf33c9b47cde8926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:16 +0000
Subject: [PATCH 90/97] fix: sum_multiplicative for small bounds and long prime
 tables

---
 include/altruct/algorithm/math/divisor_sums.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index 924fbfa..ff5ae5f 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -967,7 +967,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
     int c = icbrt(n);   // n^(1/3)
     int d = c;          // ~ n^(1/3)
     int64_t nd = n / d; // ~ n^(2/3)
-    int h = int(nd / pa1[psz]) + 1; // h <= n^(1/6)
+    int h = (psz > 0) ? int(nd / pa1[psz]) + 1 : 1; // h <= n^(1/6)
     int nq = int(n / (q + 1));      // ~ n^(1/2)
     int tsz = q + 1 + nq;           // ~ n^(1/2) * 2
 
@@ -987,8 +987,8 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
 
     // step 2: calculate F_k for k = pi(n^(1/3)) + 1; O(n^(2/3) / log(n))
     {
-        int k; for (k = 1; k < psz && pa1[k] <= c; k++);
-        int p_k = pa1[k];
+        int k; for (k = 1; k <= psz && pa1[k] <= c; k++);
+        int p_k = (k <= psz) ? pa1[k] : q + 1; // there may be no primes in (n^(1/3), n^(1/2)]
         int64_t p_k2 = isq(p_k);
         // m < p_k; only 1 is included in the sum
         F_k[0] = zero;
@@ -997,7 +997,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
         }
         // p_k <= m < p_k^2; also includes primes >= p_k in the sum
         T b = id - F_prime[p_k - 1];
-        for (int64_t m = pa1[k]; m <= q; m++) {
+        for (int64_t m = p_k; m <= q; m++) {
             F_k[m] = b + F_prime[m];
         }
         for (int i = nq; i >= 1; i--) {
@@ -1032,7 +1032,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
         for (int64_t m = 1; m <= q; m++) Ft.add(m, F_k[m]), Ft.add(m + 1, -F_k[m]);
         for (int i = nq; i > d; i--) Ft.add(tsz - i, F_k[n / i]), Ft.add(tsz - i + 1, -F_k[n / i]);
         // main loop
-        for (int k = last_k - 1; pa1[k] > h; k--) {
+        for (int k = last_k - 1; k >= 1 && pa1[k] > h; k--) {
             int p_k = pa1[k];
             // m >= nd; compute directly
             F_k1.swap(F_k);
-- 
2.43.0


From 5e8cb7b5573c05e1e71959df0bc2e4f3e5e1bc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:16 +0000
Subject: [PATCH 91/97] fix: mertens_even for arguments above 31 bits

---
 include/altruct/algorithm/math/mertens.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/mertens.h b/include/altruct/algorithm/math/mertens.h
index 135b6b2..f84bc94 100644
--- a/include/altruct/algorithm/math/mertens.h
+++ b/include/altruct/algorithm/math/mertens.h
@@ -145,7 +145,7 @@ altruct::container::sqrt_map<int64_t, T> mertens_odd(int64_t n, PI_TBL& pi_tbl,
 template<typename T, typename I, typename TBL>
 T mertens_even(I n, TBL& tbl, T id = T(1)) {
     auto zero = zeroOf(id);
-    auto t = [&](int k) { return (k > 1) ? -id : zero; };
+    auto t = [&](I k) { return (k > 1) ? -id : zero; };
     auto s = [&](I k) { return castOf<T>(id, (k + 1) / 2); };
     return sum_m<T>(t, s, n, tbl, id);
 }
-- 
2.43.0


From 70dd3d30613517c4106c67ca8a1762cf5c65756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:22 +0000
Subject: [PATCH 92/97] fix: totient sums up to zero

---
 include/altruct/algorithm/math/divisor_sums.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index ff5ae5f..85b4a09 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -713,7 +713,7 @@ std::vector<T> sum_g_L(const polynom<T>& g, int L, const std::vector<I>& vn, int
 
     // preprocess `phi_D = mu * g_D` up to `U`
     I n = *std::max_element(vn.begin(), vn.end());
-    if (U <= 0) U = (int)isq(icbrt(n)); // TODO: cast
+    if (U <= 0) U = std::max((int)isq(icbrt(n)), 1); // TODO: cast
     altruct::container::sqrt_map<I, T> mm(U, n);
     moebius_transform(mm, _g, U);
     // preprocess `Sum[p(k) * phi_D[k], {k, 1, n}]` up to `U`
@@ -774,7 +774,7 @@ template<typename T, typename I>
 altruct::container::sqrt_map<I, T> sum_phi(I n, T id = T(1), int* phi = nullptr) {
     auto idn = [&](I n) { return castOf(id, n); };
     auto tri = [&](I n) { auto r = castOf(id, n); return r * (r + 1) / 2; };
-    int U = (int)isq(icbrt(n)); // TODO: cast
+    int U = std::max((int)isq(icbrt(n)), 1); // TODO: cast
     altruct::container::sqrt_map<I, T> mm(U, n); mm[0] = zeroOf(id);
     if (phi) {
         for (int k = 1; k < U; k++) mm[k] = mm[k - 1] + phi[k];
-- 
2.43.0


From 511bc392584339f310e324689446ed45b3223820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:45 +0000
Subject: [PATCH 93/97] fix: printing of negative mpf numbers

---
 include/altruct/algorithm/math/gmp_helpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/gmp_helpers.h b/include/altruct/algorithm/math/gmp_helpers.h
index 9308090..ebbf24b 100644
--- a/include/altruct/algorithm/math/gmp_helpers.h
+++ b/include/altruct/algorithm/math/gmp_helpers.h
@@ -109,4 +109,4 @@ template<> inline mpz altruct::math::modulo_power(const mpz& x, const int64_t& y
 
 std::ostream& operator << (std::ostream& os, const mpz& rhs) { return os << rhs.get_str(); }
 std::ostream& operator << (std::ostream& os, const mpq& rhs) { return os << rhs.get_str(); }
-std::ostream& operator << (std::ostream& os, const mpf& rhs) { mp_exp_t exp = 0; return os << "0." << rhs.get_str(exp) << "e" << exp; }
+std::ostream& operator << (std::ostream& os, const mpf& rhs) { mp_exp_t exp = 0; std::string s = rhs.get_str(exp); return os << (rhs < 0 ? "-0." : "0.") << (rhs < 0 ? s.substr(1) : s) << "e" << exp; }
-- 
2.43.0


From 34ee15cf318d9306b19c0e03e5b6bf4d17f9e661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:38 +0000
Subject: [PATCH 94/97] fix: fold of the right boundary in lazy_treap::get

---
 include/altruct/structure/container/lazy_treap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index 2769297..4b7ec5a 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -301,7 +301,7 @@ public: // query & update
         }
         T re = id;
         for (bool was_right = true; e != a; e = e.parent()) {
-            if (was_right) dummy = re, re = *e, f_up(re, _val_or_id(e.left(), dummy)); // aggregate e and its left child
+            if (was_right) dummy = re, re = *e, f_up(re, _val_or_id(e.left()), dummy); // aggregate e and its left child
             was_right = (e == e.parent().right());
         }
         T r = *a; f_up(r, rb, re); // aggregate a
-- 
2.43.0


From 2b8c315efc83c483fbbcdfde3182743bbd69afbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 95/97] fix: aggregates of rotated nodes on lazy_treap insert

---
 include/altruct/structure/container/lazy_treap.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index 4b7ec5a..88c1773 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -362,11 +362,13 @@ protected: // balancing
         if (it == tree.end()) return it;
         it.balance() = rnd();
         while (it.balance() < it.parent().balance()) {
-            if (it.parent().left() == it) {
-                tree.rotate_right(it.parent());
+            auto par = it.parent();
+            if (par.left() == it) {
+                tree.rotate_right(par);
             } else {
-                tree.rotate_left(it.parent());
+                tree.rotate_left(par);
             }
+            f_up(*par, _val_or_id(par.left()), _val_or_id(par.right()));
         }
         return it;
     }
-- 
2.43.0


From 39d918692d41d6791dca52161bef04a321da66bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:04 +0000
Subject: [PATCH 96/97] fix: pending updates above lazy_treap insert_before

---
 include/altruct/structure/container/lazy_treap.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index 88c1773..22ce9dd 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -273,6 +273,11 @@ public: // query & update
     }
 
     iterator insert_before(const_iterator it, const value_type& val, int cnt = 1) {
+        propagate_down_to(it);
+        if (it != cbegin()) {
+            const_iterator prev = it;
+            propagate_down_to(--prev);
+        }
         return propagate_up(retrace_up(tree.insert_before(it.it, val, cnt)));
     }
 
-- 
2.43.0


From 4dc05c8bef5111284fd6a6b13a6b8f1731b99a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:04 +0000
Subject: [PATCH 97/97] fix: pending updates above lazy_treap erase

---
 include/altruct/structure/container/lazy_treap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index 22ce9dd..43ec53d 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -292,6 +292,7 @@ public: // query & update
     }
 
     iterator erase(const_iterator it, int cnt = std::numeric_limits<int>::max()) {
+        propagate_down_to(it);
         return propagate_up(tree.erase(retrace_down(it).it, cnt));
     }
 
-- 
2.43.0

