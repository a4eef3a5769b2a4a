From 3069788d30f51dcf8cf30cfe740933bcff2d8805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 01/13] fix: weight scaling subtracted the self-pair of a
 vertex outside its rich club

The sums over partners cover the elements before w2 (i2), so a vertex
is among its own partners only if its position is strictly smaller.
---
 source/girgs/source/WeightScaling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index 6147096..9473877 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -136,7 +136,7 @@ double estimateWeightScalingThreshold(const std::vector<double> &weights, double
 
             error += w2sum * pow2c * fac - (std::distance(sweights.cbegin(), w2));
 
-            if (w2 >= w1) {
+            if (w2 > w1) {
                 // we have to subtract the self-contribution of x == y
                 error -= pow2c * fac * (*w1) - 1.0;
             }
@@ -251,7 +251,7 @@ double estimateWeightScaling(const std::vector<double> &weights, double desiredA
             w_terms       += sweights[i1]    * w2_sum       / W;
             w_alpha_terms += pow_weights[i1] * w2_alpha_sum / W_alpha;
 
-            if (i2 >= i1) {
+            if (i2 > i1) {
                 num_terms--;
                 w_terms       -= sweights[i1]    * sweights[i1]    / W;
                 w_alpha_terms -= pow_weights[i1] * pow_weights[i1] / W_alpha;
-- 
2.43.0


From aa81d2245f73f9f2b3fa9e036a71facc6c1049f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 02/13] fix: hyperbolic sampling deadlocked when the tree is
 shallower than the first parallel level

The last thread announced the task list only if it created tasks, the
other threads waited for the announcement in any case. Also read the flag
only under its mutex.
---
 .../include/hypergirgs/HyperbolicTree.inl     | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index ebd2770..f6160f8 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -99,17 +99,20 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
 
     // 1. Phase
         // one thread will generate the task list
-        if (tid + 1 == num_threads && first_parallel_level < m_levels) {
-            ScopedTimer timer("Gen Tasks", m_profile);
-            tasks.reserve(num_tasks);
+        if (tid + 1 == num_threads) {
+            // in a shallow tree the other threads sample everything and there are no tasks
+            if (first_parallel_level < m_levels) {
+                ScopedTimer timer("Gen Tasks", m_profile);
+                tasks.reserve(num_tasks);
 
-            visitCellPairCreateTasks(0, 0, 0, first_parallel_level, tasks);
+                visitCellPairCreateTasks(0, 0, 0, first_parallel_level, tasks);
 
-            // In spirit of the LPT scheduling, we place expensive tasks to be processed first
-            std::partition(tasks.begin(), tasks.end(), [] (const TaskDescription& t) {
-                return t.cellA == t.cellB;});
+                // In spirit of the LPT scheduling, we place expensive tasks to be processed first
+                std::partition(tasks.begin(), tasks.end(), [] (const TaskDescription& t) {
+                    return t.cellA == t.cellB;});
 
-            assert(num_tasks == tasks.size());
+                assert(num_tasks == tasks.size());
+            }
 
             // inform consumers that tasks are ready
             {
@@ -124,10 +127,8 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
             visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, tid, gens[tid]);
 
             // wait until tasks are ready
-            if (!tasks_generated) {
-                std::unique_lock<std::mutex> lock(mutex);
-                cv.wait(lock, [&] {return tasks_generated;});
-            }
+            std::unique_lock<std::mutex> lock(mutex);
+            cv.wait(lock, [&] {return tasks_generated;});
         }
 
     // 2. Phase
-- 
2.43.0


From bbb6d5529b0b9cddd9aa0c5b0c29a3d93eb2575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 03/13] fix: negative lower radius of the innermost layer broke
 the layer pair table

For R < 4/3 the innermost layer was compared on a level deeper than the
tree, which wrote outside m_layer_pairs.
---
 source/hypergirgs/source/RadiusLayer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index c2eb30c..44322ab 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -47,8 +47,8 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
     // translate radius <-> layer
     auto radius_to_layer = [R, layer_height] (double radius) {return static_cast<unsigned int>( (R - radius) / layer_height );};
     auto layer_rad_max   = [R, layer_height] (int l) {return R - l * layer_height;};
-    auto layer_rad_min   = [R, layer_height] (int l) {return R - l * layer_height - layer_height;};
-    const auto r_min_outer = R - layer_height;
+    auto layer_rad_min   = [R, layer_height] (int l) {return std::max(0.0, R - l * layer_height - layer_height);}; // the innermost layer ends at the origin
+    const auto r_min_outer = layer_rad_min(0);
     auto num_layers = static_cast<unsigned int>(std::ceil( R / layer_height));
 
     // generate look-up to get the level of a layer
-- 
2.43.0


From f85b9a5dfe85fc18cd5fa88568e372b284362eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 04/13] fix: distance filter accepted edges for probabilities
 that no distance reaches

The inverse of the connection probability is negative for probabilities
above the one at distance 0 and cosh maps it back to a positive distance.
---
 source/hypergirgs/include/hypergirgs/DistanceFilter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/hypergirgs/include/hypergirgs/DistanceFilter.h b/source/hypergirgs/include/hypergirgs/DistanceFilter.h
index b0e830b..b4d9bd9 100644
--- a/source/hypergirgs/include/hypergirgs/DistanceFilter.h
+++ b/source/hypergirgs/include/hypergirgs/DistanceFilter.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <limits>
@@ -33,7 +34,7 @@ public:
     , stage_width(stages/max_prob)
     {
         for(int i=1; i < stages; i++)
-            filter_stages[i] = cosh(invConnectionProb(max_connection_prob / stages * i, R, T));
+            filter_stages[i] = cosh(std::max(0.0, invConnectionProb(max_connection_prob / stages * i, R, T))); // no distance reaches probabilities above that at distance 0
         // TODO maybe we should not save these values
         filter_stages[0] = std::numeric_limits<double>::infinity(); // at distance inf the conn prob is 0; cosh(inf)=inf
         filter_stages[stages] = 1.0; // at distance 0 the conn prob is largest; cosh(0)=1
-- 
2.43.0


From 658fb790237eacedc93109b62fa0ea6108a1ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 05/13] fix: command line tools accepted NaN for range-checked
 parameters

---
 source/cli/gengirg/main.cpp | 2 +-
 source/cli/genhrg/main.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cli/gengirg/main.cpp b/source/cli/gengirg/main.cpp
index 8dfc6b9..2a587a6 100644
--- a/source/cli/gengirg/main.cpp
+++ b/source/cli/gengirg/main.cpp
@@ -40,7 +40,7 @@ void logParam(T value, const string& name) {
 
 template<typename T>
 void rangeCheck(T value, T min, T max, string name, bool lex = false, bool hex = false) {
-    if (value < min || value > max || (value == min && lex) || (value == max && hex)) {
+    if (!(min <= value && value <= max) || (value == min && lex) || (value == max && hex)) { // also rejects NaN
         cerr << "ERROR: parameter " << name << " = " << value << " is not in range "
             << (lex ? "(" : "[") << min << "," << max << (hex ? ")" : "]") << '\n';
         exit(1);
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index d0eedcb..7ea98f9 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -39,7 +39,7 @@ void logParam(T value, const string& name) {
 
 template<typename T>
 void rangeCheck(T value, T min, T max, string name, bool lex = false, bool hex = false) {
-    if (value < min || value > max || (value == min && lex) || (value == max && hex)) {
+    if (!(min <= value && value <= max) || (value == min && lex) || (value == max && hex)) { // also rejects NaN
         cerr << "ERROR: parameter " << name << " = " << value << " is not in range "
             << (lex ? "(" : "[") << min << "," << max << (hex ? ")" : "]") << '\n';
         exit(1);
-- 
2.43.0


From aff3b4ae96016c8c645100d96d74775e08a68c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 06/13] fix: genhrg crashed for -alpha 0.5, where no finite
 radius exists

---
 source/cli/genhrg/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index 7ea98f9..62a1b07 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -55,7 +55,7 @@ int main(int argc, char* argv[]) {
     if (argc < 2 || 0 == strcmp(argv[1], "--help") || 0 == strcmp(argv[1], "-help")) {
         clog << "usage: ./genhrg\n"
             << "\t\t[-n anInt]          // number of nodes                          default 10000\n"
-            << "\t\t[-alpha aFloat]     // model parameter          range [0.5,1]   default 0.75\n"
+            << "\t\t[-alpha aFloat]     // model parameter          range (0.5,1]   default 0.75\n"
             << "\t\t[-t aFloat]         // temperature parameter    range [0,1)     default 0\n"
             << "\t\t[-deg aFloat]       // average degree           range [1,n)     default 10\n"
             << "\t\t[-rseed anInt]      // radii seed                               default 12\n"
@@ -98,7 +98,7 @@ int main(int argc, char* argv[]) {
     // log params and range checks
     cout << "using:\n";
     logParam(n, "n");
-    rangeCheck(alpha, 0.5, 1.0, "alpha");
+    rangeCheck(alpha, 0.5, 1.0, "alpha", true);
     rangeCheck(T, 0.0, 1.0, "t", false, true);
     rangeCheck(deg, 1.0, n-1.0, "deg");
     logParam(rseed, "rseed");
-- 
2.43.0


From 9c47865c1ce0f3473948258288b523448e77b119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 07/13] fix: hyperbolic sampling hung when the runtime provided
 fewer threads than requested

---
 .../hypergirgs/include/hypergirgs/HyperbolicTree.inl   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index f6160f8..231b11b 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -97,9 +97,13 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
 
         const auto tid = omp_get_thread_num();
 
+        // the runtime may provide fewer threads than requested (thread limit, nested parallelism)
+        const auto team_size = omp_get_num_threads();
+        const auto num_samplers = std::max(1, team_size - 1);
+
     // 1. Phase
         // one thread will generate the task list
-        if (tid + 1 == num_threads) {
+        if (tid + 1 == team_size) {
             // in a shallow tree the other threads sample everything and there are no tasks
             if (first_parallel_level < m_levels) {
                 ScopedTimer timer("Gen Tasks", m_profile);
@@ -123,8 +127,8 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
         }
 
         // all others will sample the cells in the first levels of the recursion tree
-        if (tid + 1 < num_threads) {
-            visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, tid, gens[tid]);
+        if (tid < num_samplers) {
+            visitCellPairSample(0, 0, 0, first_parallel_level, num_samplers, tid, gens[tid]);
 
             // wait until tasks are ready
             std::unique_lock<std::mutex> lock(mutex);
-- 
2.43.0


From e600d98e554853399c96bfb38ff4736d0b62a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 08/13] fix: calculateRadius overflowed int for n >= 2^30

---
 source/hypergirgs/source/Generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index ddf488d..742964c 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -15,7 +15,7 @@ namespace hypergirgs {
 
 
 double calculateRadius(int n, double alpha, double T, double deg) {
-    return 2 * log(n * 2 * alpha * alpha * (T == 0 ? 1 / PI : T / sin(PI * T)) /
+    return 2 * log(2.0 * n * alpha * alpha * (T == 0 ? 1 / PI : T / sin(PI * T)) /
                    (deg * (alpha - 0.5) * (alpha - 0.5)));
 }
 
-- 
2.43.0


From 225da1e381d9bd59f303044605824231425b54d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 09/13] fix: genhrg wrote coordinates below 0.1 with too few
 significant digits to read them back

---
 source/cli/genhrg/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index 62a1b07..c8da515 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -151,7 +151,7 @@ int main(int argc, char* argv[]) {
         auto t6 = high_resolution_clock::now();
         ofstream f{file+".hyp"};
         if(!f.is_open()) throw std::runtime_error{"Error: failed to open file \"" + file + ".hyp\""};
-        f << std::fixed << std::setprecision(std::numeric_limits<double>::max_digits10);
+        f << std::setprecision(std::numeric_limits<double>::max_digits10); // significant digits, so that all values can be read back exactly
         for(auto i{0u}; i<n; ++i)
             f << radii[i]  << ' ' << angles[i] << '\n';
         auto t7 = high_resolution_clock::now();
-- 
2.43.0


From 3e2aa1f0c9bdf36d0bd70da135176f6a1e67b452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 10/13] fix: integer sort left its tables for a maximum key
 that is a power of two

---
 source/girgs/include/girgs/IntSort.h           | 12 +++---------
 source/hypergirgs/include/hypergirgs/IntSort.h | 12 +++---------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/source/girgs/include/girgs/IntSort.h b/source/girgs/include/girgs/IntSort.h
index c0df6f0..4b0dd50 100644
--- a/source/girgs/include/girgs/IntSort.h
+++ b/source/girgs/include/girgs/IntSort.h
@@ -23,17 +23,11 @@ namespace IntSortInternal {
 
 template<typename T>
 uint32_t ilog2(T x) {
-    if (!x) return 0;
-
-    const typename std::make_unsigned<T>::type input = x;
+    // number of bits of x, such that all keys in [0, ..., x] are below 2^i
+    typename std::make_unsigned<T>::type input = x;
 
     int i = 0;
-    while (x >>= 1) i++;
-
-    i += (input > (1llu << i));
-
-    assert((1llu << i) >= input);
-    assert((1llu << i) / 2 < input);
+    for (; input; input >>= 1) i++;
 
     return i;
 }
diff --git a/source/hypergirgs/include/hypergirgs/IntSort.h b/source/hypergirgs/include/hypergirgs/IntSort.h
index c0df6f0..4b0dd50 100644
--- a/source/hypergirgs/include/hypergirgs/IntSort.h
+++ b/source/hypergirgs/include/hypergirgs/IntSort.h
@@ -23,17 +23,11 @@ namespace IntSortInternal {
 
 template<typename T>
 uint32_t ilog2(T x) {
-    if (!x) return 0;
-
-    const typename std::make_unsigned<T>::type input = x;
+    // number of bits of x, such that all keys in [0, ..., x] are below 2^i
+    typename std::make_unsigned<T>::type input = x;
 
     int i = 0;
-    while (x >>= 1) i++;
-
-    i += (input > (1llu << i));
-
-    assert((1llu << i) >= input);
-    assert((1llu << i) / 2 < input);
+    for (; input; input >>= 1) i++;
 
     return i;
 }
-- 
2.43.0


From c856e63eb19bdefb9090a873b5bccb47e0044819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 11/13] fix: weight scaling lost the degree in rounding errors
 when heavy vertices saturate

---
 source/girgs/source/WeightScaling.cpp | 123 +++++++++-----------------
 1 file changed, 43 insertions(+), 80 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index 9473877..cfe7e7f 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -166,104 +166,67 @@ double estimateWeightScaling(const std::vector<double> &weights, double desiredA
     assert(alpha != 1.0); // somehow breaks for alpha 1.0
 
     // compute some constant stuff
-    auto W = std::accumulate(weights.begin(), weights.end(), 0.0);
-    auto sum_sq_w = 0.0; // sum_{v\in V} (w_v^2/W)
-    auto sum_w_a = 0.0; // sum_{v\in V} (w_v  /W)^\alpha
-    auto sum_sq_w_a = 0.0; // sum_{v\in V} (w_v^2/W)^\alpha
-
-    //   sum_{u\in V} sum_{v\in V} (wu*wv/W)^\alpha
-    // = sum_{u\in V} sum_{v\in V} wu^\alpha * (wv/W)^\alpha
-    // = sum_{u\in V} wu^\alpha sum_{v\in V} (wv/W)^\alpha
-    auto sum_wwW_a = 0.0;
-    auto max_w = 0.;
     const auto n = static_cast<int>(weights.size());
+    const auto W = std::accumulate(weights.begin(), weights.end(), 0.0);
+    const auto W_alpha = std::pow(W, alpha);
 
-    // this loop causes >= 70% of runtime
-    std::vector<double> sweights(n);
-    LazySorter lazy_sorter(sweights);
-    {
+    auto sweights = weights;
+    std::sort(sweights.begin(), sweights.end(), std::greater<double>());
+
+    // this loop causes most of the runtime
+    std::vector<double> pow_weights(n);
 #ifndef _MSC_VER
-        #pragma omp parallel for reduction(+:sum_sq_w, sum_w_a, sum_sq_w_a, sum_wwW_a), reduction(max:max_w)
+    #pragma omp parallel for
 #endif
-        for (int i = 0; i < n; ++i) {
-            const auto each = weights[i];
-            sweights[i] = each; // copy in parallel
-
-            const auto each_W = each / W;
-            const auto pow_each = pow(each, alpha);
-            const auto pow_each_W = pow(each / W, alpha);
-
-            sum_sq_w += each * each_W;
-            sum_wwW_a += pow_each;
-            sum_w_a += pow_each_W;
-            sum_sq_w_a += pow_each * pow_each_W;
-            max_w = std::max(each, max_w);
-        }
+    for (int i = 0; i < n; ++i)
+        pow_weights[i] = std::pow(sweights[i], alpha);
+
+    // sums over the vertices [i, n), smallest weights first
+    std::vector<double> sum_w(n + 1), sum_sq_w(n + 1), sum_w_a(n + 1), sum_sq_w_a(n + 1);
+    for (int i = n; i-- > 0; ) {
+        sum_w[i]      = sum_w[i + 1]      + sweights[i];
+        sum_sq_w[i]   = sum_sq_w[i + 1]   + sweights[i] * sweights[i];
+        sum_w_a[i]    = sum_w_a[i + 1]    + pow_weights[i];
+        sum_sq_w_a[i] = sum_sq_w_a[i + 1] + pow_weights[i] * pow_weights[i];
     }
-    sum_wwW_a *= sum_w_a;
-    const auto max_w_W = max_w / W;
-
-    const auto factor1 = (W - sum_sq_w) * (1 + 1 / (alpha - 1)) * (1 << dimension);
-    const auto factor2 = pow(2, alpha * dimension) / (alpha - 1) * (sum_wwW_a - sum_sq_w_a);
-
-    const auto W_alpha = std::pow(W, alpha);
-
-    // pow_weights[i] = std::pow(sweights[i], alpha) for all elements of the rich club
-    std::vector<double> pow_weights;
 
+    // A pair u,v with x = 2^d * c^{1/a} * wu*wv/W >= 1 is always connected, any other pair with
+    // probability (a*x - x^a) / (a-1). We sum only over the latter pairs: the terms of the former
+    // are so large that the result would vanish in their rounding errors if we subtracted them.
     auto f = [&] (double c) {
-        const auto long_and_short_with_error = pow(c, 1 / alpha) * factor1 - c * factor2;
-
-        const auto rich_thresh = std::exp(dimension * std::log(0.5 / std::pow(c, 1.0 / alpha / dimension)) - log(max_w_W));
-        const auto richclub_end = lazy_sorter.sort_downto(rich_thresh);
-        const auto num_richclub = static_cast<int>(std::distance(sweights.begin(), richclub_end));
-
-        if (!num_richclub)
-            return long_and_short_with_error / n;
-
-        assert(num_richclub <= n);
-
-        // precompute new pows in case the richclub grew
-        pow_weights.reserve(n / num_richclub > 2 ? num_richclub : n);
-        while(pow_weights.size() < num_richclub) {
-            pow_weights.push_back(std::pow(sweights[pow_weights.size()], alpha));
-        }
+        const auto factor1 = (1 << dimension) * std::pow(c, 1 / alpha) / W;
+        const auto factor2 = c * std::pow(2, alpha * dimension) / W_alpha;
 
-        // get error for long and short edges
-        const auto thresh = std::exp( (std::log(0.5) * dimension - std::log(c) / alpha) );
+        // vertices that are always connected to the heaviest one
+        auto num_richclub = 0;
+        while (num_richclub < n && factor1 * sweights[num_richclub] * sweights[0] >= 1.0)
+            ++num_richclub;
 
-        int i2 = 0;
-        auto w2_sum       = 0.0;
-        long double w2_alpha_sum = 0.0;
-
-        auto w_terms = 0.0;
-        auto w_alpha_terms = 0.0;
+        // pairs of vertices outside the rich club
+        auto w_terms       = sum_w[num_richclub]   * sum_w[num_richclub]   - sum_sq_w[num_richclub];
+        auto w_alpha_terms = sum_w_a[num_richclub] * sum_w_a[num_richclub] - sum_sq_w_a[num_richclub];
         size_t num_terms = 0;
 
-        for(auto i1 = num_richclub; i1-- > 0; ) {
-            const auto my_thres = thresh * W / sweights[i1];
-            for (; i2 < num_richclub && sweights[i2] >= my_thres; ++i2) {
-                w2_sum       += sweights[i2];
-                w2_alpha_sum += pow_weights[i2];
-            }
+        int i2 = 0;
+        for (auto i1 = num_richclub; i1-- > 0; ) {
+            // i1 is always connected to the vertices [0, i2)
+            while (i2 < num_richclub && factor1 * sweights[i1] * sweights[i2] >= 1.0) ++i2;
 
+            // the remaining ones; those outside the rich club also see i1 as a partner
             num_terms     += i2;
-            w_terms       += sweights[i1]    * w2_sum       / W;
-            w_alpha_terms += pow_weights[i1] * w2_alpha_sum / W_alpha;
+            w_terms       += sweights[i1]    * (sum_w[i2]   + sum_w[num_richclub]);
+            w_alpha_terms += pow_weights[i1] * (sum_w_a[i2] + sum_w_a[num_richclub]);
 
-            if (i2 > i1) {
+            // no vertex is a partner of itself
+            if (i1 < i2) {
                 num_terms--;
-                w_terms       -= sweights[i1]    * sweights[i1]    / W;
-                w_alpha_terms -= pow_weights[i1] * pow_weights[i1] / W_alpha;
+            } else {
+                w_terms       -= sweights[i1]    * sweights[i1];
+                w_alpha_terms -= pow_weights[i1] * pow_weights[i1];
             }
         }
 
-        auto short_error = (1 << dimension) * pow(c, 1 / alpha) * w_terms - num_terms;
-        auto long_error = c * dimension * (1 << dimension) / (dimension - alpha * dimension) *
-            (std::pow(0.5, dimension - alpha * dimension) * w_alpha_terms -
-                std::pow(c, 1.0 / alpha - 1.0) * w_terms);
-
-        return (long_and_short_with_error - short_error - long_error) / n;
+        return (num_terms + (alpha * factor1 * w_terms - factor2 * w_alpha_terms) / (alpha - 1)) / n;
     };
 
     // do exponential search on avg_degree function
-- 
2.43.0


From 7936b8d5b6d23189b91acac75a8e27eb4a582189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:55 +0000
Subject: [PATCH 12/13] fix: document the average degree range [1,n-1] that the
 command line tools accept

A degree in (n-1,n) was documented as valid but rejected (and can not be
reached: the degree of a vertex is at most n-1).
---
 README.md                   | 4 ++--
 source/cli/gengirg/main.cpp | 2 +-
 source/cli/genhrg/main.cpp  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/README.md b/README.md
index 5bc9c6b..d258a62 100644
--- a/README.md
+++ b/README.md
@@ -92,7 +92,7 @@ usage: ./gengirg
         	[-d anInt]          // dimension of geometry    range [1,5]     default 1
 		[-ple aFloat]       // power law exponent       range (2,3]     default 2.5
 		[-alpha aFloat]     // model parameter          range (1,inf]   default infinity
-		[-deg aFloat]       // average degree           range [1,n)     default 10
+		[-deg aFloat]       // average degree           range [1,n-1]   default 10
 		[-wseed anInt]      // weight seed                              default 12
 		[-pseed anInt]      // position seed                            default 130
 		[-sseed anInt]      // sampling seed                            default 1400
@@ -109,7 +109,7 @@ usage: ./genhrg
 		[-n anInt]          // number of nodes                          default 10000
 		[-alpha aFloat]     // model parameter          range [0.5,1]   default 0.75
 		[-t aFloat]         // temperature parameter    range [0,1)     default 0
-		[-deg aFloat]       // average degree           range [1,n)     default 10
+		[-deg aFloat]       // average degree           range [1,n-1]   default 10
 		[-rseed anInt]      // radii seed                               default 12
 		[-aseed anInt]      // angle seed                               default 130
 		[-sseed anInt]      // sampling seed                            default 1400
diff --git a/source/cli/gengirg/main.cpp b/source/cli/gengirg/main.cpp
index 2a587a6..c51386b 100644
--- a/source/cli/gengirg/main.cpp
+++ b/source/cli/gengirg/main.cpp
@@ -59,7 +59,7 @@ int main(int argc, char* argv[]) {
             << "\t\t[-d anInt]          // dimension of geometry    range [1,5]     default 1\n"
             << "\t\t[-ple aFloat]       // power law exponent       range (2,3]     default 2.5\n"
             << "\t\t[-alpha aFloat]     // model parameter          range (1,inf]   default infinity\n"
-            << "\t\t[-deg aFloat]       // average degree           range [1,n)     default 10\n"
+            << "\t\t[-deg aFloat]       // average degree           range [1,n-1]   default 10\n"
             << "\t\t[-wseed anInt]      // weight seed                              default 12\n"
             << "\t\t[-pseed anInt]      // position seed                            default 130\n"
             << "\t\t[-sseed anInt]      // sampling seed                            default 1400\n"
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index c8da515..099300b 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -57,7 +57,7 @@ int main(int argc, char* argv[]) {
             << "\t\t[-n anInt]          // number of nodes                          default 10000\n"
             << "\t\t[-alpha aFloat]     // model parameter          range (0.5,1]   default 0.75\n"
             << "\t\t[-t aFloat]         // temperature parameter    range [0,1)     default 0\n"
-            << "\t\t[-deg aFloat]       // average degree           range [1,n)     default 10\n"
+            << "\t\t[-deg aFloat]       // average degree           range [1,n-1]   default 10\n"
             << "\t\t[-rseed anInt]      // radii seed                               default 12\n"
             << "\t\t[-aseed anInt]      // angle seed                               default 130\n"
             << "\t\t[-sseed anInt]      // sampling seed                            default 1400\n"
-- 
2.43.0


From 117dd7bb8a292c6df595c70606cff0996520b471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:03 +0000
Subject: [PATCH 13/13] fix: the weight scaling search did not end for a degree
 of n-1 that is only reached up to rounding errors

---
 source/girgs/source/WeightScaling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index cfe7e7f..3bf5b46 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -14,8 +14,8 @@ namespace girgs {
 static double exponentialSearch(const std::function<double(double)> &f, double desiredValue, double accuracy = 0.02, double lower = 1.0,
                                 double upper = 2.0) {
 
-    // scale interval up if necessary
-    while (f(upper) < desiredValue) {
+    // scale interval up if necessary (f only approaches its supremum, e.g. the degree n-1, up to rounding errors)
+    while (f(upper) < desiredValue - accuracy / 2) {
         lower = upper;
         upper *= 2;
     }
-- 
2.43.0

