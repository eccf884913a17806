From 03b0ee8800be3a75ceaf858ae69c7629c3142dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:27 +0000
Subject: [PATCH 01/31] fix: reset fixing data when refinement fixes no column

When a refinement round selects no column to fix, the instance is the original one again but
the fixing data of the previous round was kept, so the next solution was translated with stale
column maps and a stale fixed cost.
---
 src/algorithms/Refinement.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/Refinement.hpp b/src/algorithms/Refinement.hpp
index 7997b70..20ce9c6 100644
--- a/src/algorithms/Refinement.hpp
+++ b/src/algorithms/Refinement.hpp
@@ -128,10 +128,9 @@ inline CftResult run(Environment const& env,                // in
 
         inst             = orig_inst;
         auto cols_to_fix = select_cols_to_fix(env, inst, nofix_dual.mults, best_sol);
-        if (!cols_to_fix.empty()) {
-            make_identity_fixing_data(ncols, nrows, fixing);
+        make_identity_fixing_data(ncols, nrows, fixing);
+        if (!cols_to_fix.empty())
             fix_columns_and_compute_maps(cols_to_fix, inst, fixing, old2new);
-        }
         real_t nrows_real = as_real(rsize(orig_inst.rows));
         real_t free_perc  = as_real(rsize(inst.rows)) * 100.0_F / nrows_real;
         print<2>(env,
-- 
2.43.0


From d798b9305e7e78197edea3580c916e5cfba80f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:27 +0000
Subject: [PATCH 02/31] fix: drop removed columns when heuristic removal
 empties the redundant set

The greedy step returned the cost without the columns selected for removal, but left them in
the solution.
---
 src/greedy/Greedy.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/greedy/Greedy.hpp b/src/greedy/Greedy.hpp
index 0143a82..db0a281 100644
--- a/src/greedy/Greedy.hpp
+++ b/src/greedy/Greedy.hpp
@@ -120,10 +120,11 @@ private:
     }
 
     static bool _try_early_exit(RedundancyData& redund_info, std::vector<cidx_t>& sol) {
-        if (redund_info.partial_cost >= redund_info.best_cost || redund_info.redund_set.empty())
+        if (redund_info.partial_cost >= redund_info.best_cost)
             return true;  // Partial solution already worse than best cost
 
-        if (redund_info.partial_cov_count < rsize(redund_info.partial_cover))
+        if (!redund_info.redund_set.empty() &&
+            redund_info.partial_cov_count < rsize(redund_info.partial_cover))
             return false;  // Partial cover not completed yet, continue
 
         // Otherwise complete the solution removing redundant columns
-- 
2.43.0


From 341f31df9e69ac7e7fdd7c7da36a5482436bfc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:27 +0000
Subject: [PATCH 03/31] fix: accept a greedy solution only when it improves on
 the cutoff

With a zero (or negligible) epsilon a greedy result discarded at the cutoff cost was stored as
the incumbent although its columns had not been reduced.
---
 src/subgradient/Subgradient.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subgradient/Subgradient.hpp b/src/subgradient/Subgradient.hpp
index 395dd0d..8981391 100644
--- a/src/subgradient/Subgradient.hpp
+++ b/src/subgradient/Subgradient.hpp
@@ -144,7 +144,7 @@ public:
             greedy_sol.idxs.clear();
             greedy_sol.cost = greedy(core_inst, lagr_mult, reduced_costs, greedy_sol.idxs, cutoff);
             print<5>(env, "HEUR> {:4}: Greedy solution {:.2f}\n", iter, best_sol.cost);
-            if (greedy_sol.cost <= best_sol.cost - env.epsilon) {
+            if (greedy_sol.cost < cutoff && greedy_sol.cost <= cutoff - env.epsilon) {
                 best_sol = greedy_sol;
                 print<4>(env, "HEUR> {:4}: Improved solution {:.2f}\n", iter, best_sol.cost);
                 CFT_IF_DEBUG(check_inst_solution(core_inst, best_sol));
-- 
2.43.0


From c2b44dd023a68e8ed2c0af9af889519b78ce6a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:27 +0000
Subject: [PATCH 04/31] fix: do not take an unimproved heuristic solution
 because of rounding

cutoff + fixed cost can round below the best cost, in which case the empty heuristic solution
replaced the incumbent.
---
 src/algorithms/ThreePhase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/ThreePhase.hpp b/src/algorithms/ThreePhase.hpp
index 6f31983..7d6a4ca 100644
--- a/src/algorithms/ThreePhase.hpp
+++ b/src/algorithms/ThreePhase.hpp
@@ -61,7 +61,7 @@ public:
             sol.cost = cutoff;  // Sol get filled only if one with cost < cutoff is found
             subgrad.heuristic(env, core.inst, step_size, greedy, sol, lagr_mult);
 
-            if (sol.cost + fixing.fixed_cost < best_sol.cost) {
+            if (sol.cost < cutoff && sol.cost + fixing.fixed_cost < best_sol.cost) {
                 _from_core_to_unfixed_sol(sol, core, fixing, best_sol);
                 CFT_IF_DEBUG(check_inst_solution(inst_copy, best_sol));
             }
-- 
2.43.0


From c1274e974e513dbf32a434f16dbf965c4786b6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 05/31] fix: restore the partial cost in redundancy enumeration
 instead of subtracting

---
 src/greedy/redundancy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/greedy/redundancy.hpp b/src/greedy/redundancy.hpp
index aeb4291..aab00dc 100644
--- a/src/greedy/redundancy.hpp
+++ b/src/greedy/redundancy.hpp
@@ -110,6 +110,8 @@ namespace local { namespace {
             if (red_data.partial_cost + red_data.redund_set[Depth].cost < red_data.best_cost &&
                 !partial_cover.is_redundant_cover(col)) {
 
+                real_t const old_partial_cost = red_data.partial_cost;
+
                 vars[Depth] = true;
                 red_data.partial_cov_count += as_ridx(partial_cover.cover(col));
                 red_data.partial_cost += red_data.redund_set[Depth].cost;
@@ -118,7 +120,7 @@ namespace local { namespace {
 
                 vars[Depth] = false;
                 red_data.partial_cov_count -= as_ridx(partial_cover.uncover(col));
-                red_data.partial_cost -= red_data.redund_set[Depth].cost;
+                red_data.partial_cost = old_partial_cost;  // subtracting would accumulate rounding
             }
 
             if (total_cover.is_redundant_uncover(col)) {
-- 
2.43.0


From 08e4d0a52da5b017cbaa807e11230f3a7a9d048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 06/31] fix: make the debug solution check tolerant to rounding

---
 src/core/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/utils.hpp b/src/core/utils.hpp
index 6ebfb9d..a6a47e4 100644
--- a/src/core/utils.hpp
+++ b/src/core/utils.hpp
@@ -28,7 +28,7 @@ inline void check_inst_solution(Instance const& inst, Solution const& sol) {
     real_t total_cost = 0.0_F;
     for (cidx_t j : sol.idxs)
         total_cost += inst.costs[j];
-    assert(abs(total_cost - sol.cost) < 1e-6_F);
+    assert(abs(total_cost - sol.cost) <= 1e-4_F * max(1.0_F, abs(total_cost)));
 }
 #endif
 
-- 
2.43.0


From 111331c964fa02e9f0014e1d963b9b90bd8f61b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 07/31] fix: allow rounding in the lower bound assertion of the
 heuristic phase

---
 src/subgradient/Subgradient.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/subgradient/Subgradient.hpp b/src/subgradient/Subgradient.hpp
index 8981391..a879fe3 100644
--- a/src/subgradient/Subgradient.hpp
+++ b/src/subgradient/Subgradient.hpp
@@ -151,7 +151,8 @@ public:
             }
 
             if (sqr_norm < 0.999_F) {  // Squared norm is an integer
-                assert(best_core_lb <= best_sol.cost && "Optimum is above cutoff");
+                assert(best_core_lb <= best_sol.cost + 1e-4_F * max(1.0_F, abs(best_sol.cost)) &&
+                       "Optimum is above cutoff");
                 print<4>(env, "HEUR> {:4} Found optimal solution.\n", iter);
                 best_lagr_mult = lagr_mult;
                 return;
-- 
2.43.0


From b9219416957c1ba95fce4ea127e386edbbe68c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 08/31] fix: avoid 0/0 in the step size update when every lower
 bound is zero

---
 src/subgradient/utils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/subgradient/utils.hpp b/src/subgradient/utils.hpp
index 402ad2e..33eae86 100644
--- a/src/subgradient/utils.hpp
+++ b/src/subgradient/utils.hpp
@@ -37,7 +37,9 @@ namespace cft { namespace local { namespace {
             max_lower_bound = max(max_lower_bound, lower_bound);
             if (iter == next_update_iter) {
                 next_update_iter += period;
-                real_t diff = (max_lower_bound - min_lower_bound) / abs(max_lower_bound);
+                real_t diff = 0.0_F;  // constant lower bounds, avoids 0/0
+                if (max_lower_bound > min_lower_bound)
+                    diff = (max_lower_bound - min_lower_bound) / abs(max_lower_bound);
                 assert(diff >= 0.0_F && "Negative difference in lower bounds");
                 if (diff > 0.01_F)
                     curr_step_size /= 2.0_F;
-- 
2.43.0


From 0cd1907dc32396c6b16ee63cd83df95101ee8939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:58 +0000
Subject: [PATCH 09/31] fix: report the end of a file instead of repeating its
 last line

---
 src/core/parsing.hpp      | 2 +-
 src/utils/parse_utils.hpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index de38c82..2146f88 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -46,7 +46,7 @@ namespace local { namespace {
                                    std::unordered_map<std::string, ridx_t> const& rows_map) {
         // Check RHSs
         auto line_view = file_iter.next();
-        while (line_view != "BOUNDS") {
+        while (line_view != "BOUNDS" && line_view != "ENDATA") {
             line_view   = trim(line_view);
             auto tokens = split(line_view);
             assert(tokens[0] == "rhs" || tokens[0] == "RHS");
diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 85eb441..bb75a72 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -131,7 +131,8 @@ struct FileLineIterator {
     }
 
     StringView next() {
-        std::getline(in, line);
+        if (!std::getline(in, line))
+            throw std::invalid_argument("Unexpected end of file");
         return trim(StringView(line));
     }
 };
-- 
2.43.0


From 888b2b997e649e3ee8b81f9ca330932305e0ff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:58 +0000
Subject: [PATCH 10/31] fix: do not read past the end when right-trimming a
 blank string

---
 src/utils/parse_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index bb75a72..1e843c4 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -41,6 +41,8 @@ inline StringView rtrim(StringView str) {
     if (str.empty())
         return str;
     size_t suffix = str.find_last_true(NotSpace{});
+    if (suffix == str.size())  // only spaces
+        return str.remove_suffix(0);
     return str.remove_suffix(suffix + 1);
 }
 
-- 
2.43.0


From f8525d7415b11ebd33995df4ae6819d808627809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:58 +0000
Subject: [PATCH 11/31] fix: reject integers below the 64 bit range when
 parsing

---
 src/utils/parse_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 1e843c4..9c6be65 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -96,10 +96,10 @@ struct string_to {
             oo_range = !std::isfinite(val);
         } else if (std::is_signed<val_t>::value) {
             val      = std::strtoll(str.data(), &end, 10);
-            oo_range = val == limits<val_t>::max() && errno == ERANGE;
+            oo_range = errno == ERANGE;
         } else {  // unsigned
             val      = std::strtoull(str.data(), &end, 10);
-            oo_range = val == limits<val_t>::max() && errno == ERANGE;
+            oo_range = errno == ERANGE;
         }
 
         if (oo_range || val < limits<val_t>::min() || limits<val_t>::max() < val)
-- 
2.43.0


From f5a81f46d1d1f7622677b355aa6547415dd61e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:58 +0000
Subject: [PATCH 12/31] fix: reject out of range indexes in RAIL and CVRP files

---
 src/core/parsing.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 2146f88..e11a000 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -126,7 +126,7 @@ inline Instance parse_rail_instance(std::string const& path) {
 
         for (ridx_t n = 0_R; n < j_nrows; n++) {
             inst.cols.idxs.push_back(string_to<ridx_t>::parse(tokens[n]) - 1_R);
-            if (inst.cols.idxs.back() >= num.rows)
+            if (inst.cols.idxs.back() < 0_R || inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a RAIL instance?");
         }
         inst.cols.begs.push_back(csize(inst.cols.idxs));
@@ -157,7 +157,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
 
         while (!line_view.empty()) {
             fdata.inst.cols.idxs.push_back(string_to<ridx_t>::consume(line_view));
-            if (fdata.inst.cols.idxs.back() >= num.rows)
+            if (fdata.inst.cols.idxs.back() < 0_R || fdata.inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         }
         fdata.inst.cols.begs.push_back(csize(fdata.inst.cols.idxs));
@@ -166,6 +166,8 @@ inline FileData parse_cvrp_instance(std::string const& path) {
     line_view = file_iter.next();
     while (!line_view.empty()) {
         cidx_t j = string_to<cidx_t>::consume(line_view);
+        if (j < 0_C || j >= num.cols)
+            throw std::invalid_argument("Invalid column index: not a CVRP instance?");
         fdata.init_sol.idxs.push_back(j);
         fdata.init_sol.cost += fdata.inst.costs[j];
     }
-- 
2.43.0


From 55b2cae4bfbfc41e0ebbb98c388605b9870cc00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:58 +0000
Subject: [PATCH 13/31] fix: reject incomplete lines, unknown rows and
 oversized MPS files

---
 src/core/parsing.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index e11a000..c6f680a 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -194,9 +194,16 @@ inline Instance parse_mps_instance(std::string const& path) {
     auto   obj_name = std::string();
     while (line_view != "COLUMNS") {
         auto tokens = split(line_view);
-        if (!tokens.empty() && tokens[0] == "N")
+        bool is_obj = !tokens.empty() && tokens[0] == "N";
+        bool is_row = !tokens.empty() &&
+                      (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L");
+        if ((is_obj || is_row) && tokens.size() < 2)
+            throw std::invalid_argument("Invalid file format: missing row name in MPS instance.");
+        if (is_row && nrows == limits<ridx_t>::max())
+            throw std::out_of_range("Too many rows in MPS instance.");
+        if (is_obj)
             obj_name = tokens[1].to_cpp_string();
-        if (!tokens.empty() && (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L"))
+        if (is_row)
             rows_map[tokens[1].to_cpp_string()] = nrows++;
         line_view = file_iter.next();
     }
@@ -213,19 +220,24 @@ inline Instance parse_mps_instance(std::string const& path) {
         }
 
         if (tokens[0] != prev_col_name) {  // new column
+            if (size(inst.costs) >= static_cast<size_t>(native_cast(limits<cidx_t>::max())))
+                throw std::out_of_range("Too many columns in MPS instance.");
             prev_col_name = tokens[0].to_cpp_string();
             inst.cols.begs.push_back(csize(inst.cols.idxs));
             inst.costs.push_back(limits<real_t>::max());
         }
 
+        if (tokens.size() % 2 == 0)
+            throw std::invalid_argument("Invalid file format: missing value in MPS instance.");
         for (size_t t = 1; t < tokens.size(); t += 2) {
             if (tokens[t] == obj_name)
                 inst.costs.back() = string_to<real_t>::parse(tokens[t + 1]);
             else {
-                auto row_name = tokens[t];
-                assert(rows_map.find(row_name.to_cpp_string()) != rows_map.end());
+                auto row_it = rows_map.find(tokens[t].to_cpp_string());
+                if (row_it == rows_map.end())
+                    throw std::invalid_argument("Invalid file format: unknown row in MPS instance.");
                 assert(tokens[t + 1] == "1" || tokens[t + 1] == "-1");
-                inst.cols.idxs.push_back(rows_map[row_name.to_cpp_string()]);
+                inst.cols.idxs.push_back(row_it->second);
             }
         }
 
-- 
2.43.0


From 60d4b12e89e46661bf867a2999561794238e01ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:26 +0000
Subject: [PATCH 14/31] fix: price MPS columns without objective coefficient at
 zero

---
 src/core/parsing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index c6f680a..7663832 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -224,7 +224,7 @@ inline Instance parse_mps_instance(std::string const& path) {
                 throw std::out_of_range("Too many columns in MPS instance.");
             prev_col_name = tokens[0].to_cpp_string();
             inst.cols.begs.push_back(csize(inst.cols.idxs));
-            inst.costs.push_back(limits<real_t>::max());
+            inst.costs.push_back(0.0_F);  // absent coefficients are zero
         }
 
         if (tokens.size() % 2 == 0)
-- 
2.43.0


From 4a5f120edebb879cc9be393f9c73ad936a4a6db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:26 +0000
Subject: [PATCH 15/31] fix: do not store the number of non-zeros in a column
 index

---
 src/core/Instance.hpp |  2 +-
 src/core/parsing.hpp  | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/Instance.hpp b/src/core/Instance.hpp
index 07eee2c..39544f0 100644
--- a/src/core/Instance.hpp
+++ b/src/core/Instance.hpp
@@ -64,7 +64,7 @@ inline void fill_rows_from_cols(SparseBinMat<ridx_t> const&       cols,   // in
     rows.resize(nrows);
     for (auto& row : rows) {
         row.clear();
-        row.reserve(csize(cols.idxs) / as_cidx(nrows));
+        row.reserve(cols.idxs.size() / rows.size());
     }
 
     for (cidx_t j = 0_C; j < csize(cols); ++j)
diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 7663832..342bd6b 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -99,7 +99,7 @@ inline Instance parse_scp_instance(std::string const& path) {
     for (auto const& col : cols) {
         for (ridx_t i : col)
             inst.cols.idxs.push_back(i);
-        inst.cols.begs.push_back(csize(inst.cols.idxs));
+        inst.cols.begs.push_back(inst.cols.idxs.size());
     }
 
     inst.cols = SparseBinMat<ridx_t>();
@@ -129,7 +129,7 @@ inline Instance parse_rail_instance(std::string const& path) {
             if (inst.cols.idxs.back() < 0_R || inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a RAIL instance?");
         }
-        inst.cols.begs.push_back(csize(inst.cols.idxs));
+        inst.cols.begs.push_back(inst.cols.idxs.size());
     }
 
     fill_rows_from_cols(inst.cols, num.rows, inst.rows);
@@ -160,7 +160,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
             if (fdata.inst.cols.idxs.back() < 0_R || fdata.inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         }
-        fdata.inst.cols.begs.push_back(csize(fdata.inst.cols.idxs));
+        fdata.inst.cols.begs.push_back(fdata.inst.cols.idxs.size());
     }
 
     line_view = file_iter.next();
@@ -223,7 +223,7 @@ inline Instance parse_mps_instance(std::string const& path) {
             if (size(inst.costs) >= static_cast<size_t>(native_cast(limits<cidx_t>::max())))
                 throw std::out_of_range("Too many columns in MPS instance.");
             prev_col_name = tokens[0].to_cpp_string();
-            inst.cols.begs.push_back(csize(inst.cols.idxs));
+            inst.cols.begs.push_back(inst.cols.idxs.size());
             inst.costs.push_back(0.0_F);  // absent coefficients are zero
         }
 
@@ -243,7 +243,7 @@ inline Instance parse_mps_instance(std::string const& path) {
 
         line_view = file_iter.next();
     }
-    inst.cols.begs.push_back(csize(inst.cols.idxs));
+    inst.cols.begs.push_back(inst.cols.idxs.size());
 
     CFT_IF_DEBUG(local::mps_epilogue_check(file_iter, rows_map));
     fill_rows_from_cols(inst.cols, nrows, inst.rows);
-- 
2.43.0


From e45eb9b0be75fd9cff85d2b9bf6a00c3e4981ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:46 +0000
Subject: [PATCH 16/31] fix: reject files that repeat a row within a column

---
 src/core/parsing.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 342bd6b..19218ee 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -41,6 +41,15 @@ namespace local { namespace {
         return num;
     }
 
+    // Completes the rows of a parsed instance, rejecting rows repeated within the same column.
+    void fill_and_check_rows(ridx_t nrows, Instance& inst) {
+        fill_rows_from_cols(inst.cols, nrows, inst.rows);
+        for (auto const& row : inst.rows)
+            for (size_t n = 1; n < row.size(); ++n)
+                if (row[n - 1] == row[n])
+                    throw std::invalid_argument("Invalid file format: row repeated in a column.");
+    }
+
 #ifndef NDEBUG
     inline void mps_epilogue_check(FileLineIterator&                              file_iter,
                                    std::unordered_map<std::string, ridx_t> const& rows_map) {
@@ -106,7 +115,7 @@ inline Instance parse_scp_instance(std::string const& path) {
     for (auto& col : cols)
         inst.cols.push_back(col);
 
-    fill_rows_from_cols(inst.cols, num.rows, inst.rows);
+    local::fill_and_check_rows(num.rows, inst);
     return inst;
 }
 
@@ -132,7 +141,7 @@ inline Instance parse_rail_instance(std::string const& path) {
         inst.cols.begs.push_back(inst.cols.idxs.size());
     }
 
-    fill_rows_from_cols(inst.cols, num.rows, inst.rows);
+    local::fill_and_check_rows(num.rows, inst);
     return inst;
 }
 
@@ -172,7 +181,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
         fdata.init_sol.cost += fdata.inst.costs[j];
     }
 
-    fill_rows_from_cols(fdata.inst.cols, num.rows, fdata.inst.rows);
+    local::fill_and_check_rows(num.rows, fdata.inst);
     return fdata;
 }
 
@@ -246,7 +255,7 @@ inline Instance parse_mps_instance(std::string const& path) {
     inst.cols.begs.push_back(inst.cols.idxs.size());
 
     CFT_IF_DEBUG(local::mps_epilogue_check(file_iter, rows_map));
-    fill_rows_from_cols(inst.cols, nrows, inst.rows);
+    local::fill_and_check_rows(nrows, inst);
     return inst;
 }
 
-- 
2.43.0


From 2ccc3e7d97d0048e1c970301e3c064312fe4afb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:46 +0000
Subject: [PATCH 17/31] fix: report failed writes of the solution file

---
 src/core/parsing.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 19218ee..b5940c6 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -279,6 +279,8 @@ inline void write_solution(std::string const& path, Solution const& sol) {
     for (cidx_t j : sol.idxs)
         fmt::print(file, " {}", j);
     file.close();
+    if (file.fail())
+        throw std::runtime_error("Failed to write file: " + path);
 }
 
 inline FileData parse_inst_and_initsol(Environment const& env) {
-- 
2.43.0


From 688c41eeb0aa101bb21974d6766b1a889bed6ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:46 +0000
Subject: [PATCH 18/31] fix: reject infeasible instances and solve empty ones

---
 src/algorithms/Refinement.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algorithms/Refinement.hpp b/src/algorithms/Refinement.hpp
index 20ce9c6..8619e59 100644
--- a/src/algorithms/Refinement.hpp
+++ b/src/algorithms/Refinement.hpp
@@ -5,6 +5,8 @@
 #define CFT_SRC_ALGORITHMS_REFINEMENT_HPP
 
 
+#include <stdexcept>
+
 #include "algorithms/ThreePhase.hpp"
 #include "core/cft.hpp"
 #include "utils/Chrono.hpp"
@@ -96,6 +98,12 @@ inline CftResult run(Environment const& env,                // in
     cidx_t const ncols = csize(orig_inst.cols);
     ridx_t const nrows = rsize(orig_inst.rows);
 
+    for (auto const& row : orig_inst.rows)
+        if (row.empty())
+            throw std::invalid_argument("Infeasible instance: a row is not covered by any column.");
+    if (nrows == 0_R)
+        return {{{}, 0.0_F}, {{}, 0.0_F}};
+
     auto inst       = orig_inst;
     auto nofix_dual = DualState();
     auto best_sol   = Solution();
-- 
2.43.0


From 23e7819d05fcdb0631f9b20d560c8bc563086424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 19/31] fix: validate initial solutions when loading them

---
 src/core/parsing.hpp | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index b5940c6..fd2e4f2 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -19,10 +19,6 @@
 #include "utils/parse_utils.hpp"
 #include "utils/print.hpp"
 
-#ifndef NDEBUG
-#include "core/utils.hpp"
-#endif
-
 namespace cft {
 
 namespace local { namespace {
@@ -283,6 +279,29 @@ inline void write_solution(std::string const& path, Solution const& sol) {
         throw std::runtime_error("Failed to write file: " + path);
 }
 
+namespace local { namespace {
+    // The initial solution must be a cover of the instance, with its actual cost.
+    void validate_init_sol(Instance const& inst, Solution const& sol) {
+        cidx_t const ncols    = csize(inst.cols);
+        auto         selected = std::vector<bool>(inst.cols.size(), false);
+        real_t       cost     = 0.0_F;
+        for (cidx_t j : sol.idxs) {
+            if (j < 0_C || j >= ncols || selected[j])
+                throw std::invalid_argument("Invalid initial solution: wrong column index.");
+            selected[j] = true;
+            cost += inst.costs[j];
+        }
+
+        for (auto const& row : inst.rows)
+            if (!any(row, [&](cidx_t j) { return selected[j]; }))
+                throw std::invalid_argument("Invalid initial solution: uncovered row.");
+
+        if (!(abs(cost - sol.cost) <= 1e-4_F * max(1.0_F, abs(cost))))
+            throw std::invalid_argument("Invalid initial solution: wrong cost.");
+    }
+}  // namespace
+}  // namespace local
+
 inline FileData parse_inst_and_initsol(Environment const& env) {
     auto fdata = FileData();
 
@@ -307,16 +326,17 @@ inline FileData parse_inst_and_initsol(Environment const& env) {
         throw std::runtime_error("Parser does not exists.");
     }
 
-    if (!env.initsol_path.empty()) {
+    if (!env.initsol_path.empty())
         fdata.init_sol = parse_solution(env.initsol_path);
-        CFT_IF_DEBUG(check_inst_solution(fdata.inst, fdata.init_sol));
-    }
 
     if (env.use_unit_costs) {
         fdata.inst.costs.assign(csize(fdata.inst.costs), 1.0_F);
         fdata.init_sol.cost = as_real(size(fdata.init_sol.idxs));
     }
 
+    if (!fdata.init_sol.idxs.empty())
+        local::validate_init_sol(fdata.inst, fdata.init_sol);
+
     print<1>(env, "CFT> Instance size: {} x {}.\n", rsize(fdata.inst.rows), csize(fdata.inst.cols));
     return fdata;
 }
-- 
2.43.0


From 0c6864a274a85745decaffa8f78067a8a873c3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:50 +0000
Subject: [PATCH 20/31] fix: expose the dual multipliers under the name the
 Python solver uses

---
 src/pycft/_bindings.cpp       | 4 ++--
 src/pycft/set_cover_solver.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index eb92987..c8bddd0 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -155,8 +155,8 @@ PYBIND11_MODULE(_bindings, m) {
 
     py::class_<DualState>(m, "DualState")
         .def(py::init<>())
-        .def_readwrite("idxs", &DualState::mults)
-        .def_readwrite("cost", &DualState::lb)
+        .def_readwrite("mults", &DualState::mults)
+        .def_readwrite("lb", &DualState::lb)
         .def("copy", [](DualState const& a) { return a; })
         .def("__repr__", [](DualState const& a) {
             return fmt::format("DualState(mults={}, lb={})", a.mults, a.lb);
diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index d47876e..c05cf23 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -158,7 +158,7 @@ class SetCoverSolver:
         """
         if self._result is None:
             return 0
-        return self._result.dual.cost
+        return self._result.dual.lb
 
     def get_dual_multipliers(self) -> list[float] | None:
         """
-- 
2.43.0


From f0559468df2ba2b6202617f3078b948d172961f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:50 +0000
Subject: [PATCH 21/31] fix: make the seed of the Python solver effective

---
 src/pycft/_bindings.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index c8bddd0..a126d03 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -66,7 +66,10 @@ PYBIND11_MODULE(_bindings, m) {
         .def_readwrite("sol_path", &Environment::sol_path)
         .def_readwrite("initsol_path", &Environment::initsol_path)
         .def_readwrite("parser", &Environment::parser)
-        .def_readwrite("seed", &Environment::seed)
+        .def_property(
+            "seed",
+            [](Environment const& self) { return self.seed; },
+            [](Environment& self, uint64_t seed) { self.rnd = prng_t(self.seed = seed); })
         .def_readwrite("time_limit", &Environment::time_limit)
         .def_readwrite("verbose", &Environment::verbose)
         .def_readwrite("epsilon", &Environment::epsilon)
-- 
2.43.0


From 7f348aa8fcbc01507df7a5644d55757449732b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:50 +0000
Subject: [PATCH 22/31] fix: validate Python sets before changing the solver

---
 src/pycft/_bindings.cpp       | 4 ++--
 src/pycft/set_cover_solver.py | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index a126d03..8791eda 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -124,9 +124,9 @@ PYBIND11_MODULE(_bindings, m) {
         .def_readwrite("costs", &Instance::costs)
         .def("add",
              [](Instance& self, std::vector<ridx_t> const& col, real_t cost) {
-                 self.cols.push_back(col);
-                 if (cost < 0.0)
+                 if (!(cost >= 0.0))
                      throw std::runtime_error("Costs must be non-negative.");
+                 self.cols.push_back(col);
                  self.costs.push_back(cost);
                  return self.costs.size() - 1;
              })
diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index c05cf23..750ed68 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -56,18 +56,19 @@ class SetCoverSolver:
         """
         Add a set. Returns the index of the set which is also used in the solution.
         """
-        if cost < 0:
-            raise ValueError("Costs must be non-negative")
+        if not 0 <= cost < float("inf"):
+            raise ValueError("Costs must be finite and non-negative")
         if not all(0 <= e for e in elements):
             raise ValueError("Elements must be zero-indexed.")
         max_element = max(elements)
+        # Elements repeated within a set count once
+        self._instance.add(list(dict.fromkeys(elements)), cost)
         if max_element > self._max_element:
             self._max_element = max_element
             self._result = (
                 None  # in case there is a new element, the solution is no longer
             )
             # valid
-        self._instance.add(elements, cost)
         self._initialized = False
         return len(self._instance.costs) - 1
 
-- 
2.43.0


From f13cba3e09ea3f1c9537e6c8caa97c1b14168234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:50 +0000
Subject: [PATCH 23/31] fix: make loading an instance from a file work in the
 Python solver

---
 src/pycft/set_cover_solver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index 750ed68..b51acb7 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -83,9 +83,11 @@ class SetCoverSolver:
         env.parser = parser
         fdata = parse_inst_and_initsol(env)
         self._instance = fdata.inst.copy()
-        self._result.solution = fdata.init_sol.copy()
-        print(self._result)
-        self.num_elements = len(self._instance.costs)
+        self._max_element = len(self._instance.rows) - 1
+        self._result = None
+        if fdata.init_sol.idxs:
+            self._result = CftResult()
+            self._result.sol = fdata.init_sol.copy()
         self._initialized = True  # a file is always considered initialized
 
     def solve(
-- 
2.43.0


From 095838c5bbd66abc730b60b46251ae3a926ac5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 24/31] fix: refuse Python costs that overflow the native real
 type

---
 src/pycft/_bindings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index 8791eda..4cb5618 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -124,8 +124,8 @@ PYBIND11_MODULE(_bindings, m) {
         .def_readwrite("costs", &Instance::costs)
         .def("add",
              [](Instance& self, std::vector<ridx_t> const& col, real_t cost) {
-                 if (!(cost >= 0.0))
-                     throw std::runtime_error("Costs must be non-negative.");
+                 if (!(cost >= 0.0 && cost <= limits<real_t>::max()))
+                     throw std::runtime_error("Costs must be finite and non-negative.");
                  self.cols.push_back(col);
                  self.costs.push_back(cost);
                  return self.costs.size() - 1;
-- 
2.43.0


From bb896dce41ccc3d2db4549a3952453f6749d9c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 25/31] fix: accept the documented use_unit_costs parameter in
 the Python solver

---
 src/pycft/set_cover_solver.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index b51acb7..f1391d0 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -51,6 +51,7 @@ class SetCoverSolver:
         self._instance = Instance()
         self._initialized = False
         self._max_element = -1
+        self._unit_costs_result = False  # whether the cost of the result is in unit costs
 
     def add_set(self, elements: list[int], cost: float) -> int:
         """
@@ -85,6 +86,7 @@ class SetCoverSolver:
         self._instance = fdata.inst.copy()
         self._max_element = len(self._instance.rows) - 1
         self._result = None
+        self._unit_costs_result = False
         if fdata.init_sol.idxs:
             self._result = CftResult()
             self._result.sol = fdata.init_sol.copy()
@@ -102,6 +104,7 @@ class SetCoverSolver:
         abs_subgrad_exit: float = 1.0,
         rel_subgrad_exit: float = 0.001,
         min_fixing=0.3,
+        use_unit_costs: bool = False,
     ) -> None:
         """
         Solves the set cover problem using the specified parameters.
@@ -136,8 +139,16 @@ class SetCoverSolver:
             self._instance.rows.clear()
             self._instance.prepare()
             self._initialized = True
-        init_sol = Solution() if self._result is None else self._result.sol
-        self._result = run(env, self._instance, init_sol).copy()
+        instance = self._instance
+        if use_unit_costs:
+            instance = instance.copy()
+            instance.costs = [1.0] * len(instance.costs)
+        init_sol = Solution() if self._result is None else self._result.sol.copy()
+        if use_unit_costs != self._unit_costs_result:
+            costs = instance.costs
+            init_sol.cost = sum(costs[j] for j in init_sol.idxs)
+        self._result = run(env, instance, init_sol).copy()
+        self._unit_costs_result = use_unit_costs
 
     def get_solution(self) -> list[int] | None:
         """
-- 
2.43.0


From 5855a741625a91703179e1166e31f8c9e346699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:20 +0000
Subject: [PATCH 26/31] fix: do not read past the tokens of a line in the debug
 check of MPS files

---
 src/core/parsing.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index fd2e4f2..897ff17 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -54,6 +54,7 @@ namespace local { namespace {
         while (line_view != "BOUNDS" && line_view != "ENDATA") {
             line_view   = trim(line_view);
             auto tokens = split(line_view);
+            assert(tokens.size() % 2 == 1);
             assert(tokens[0] == "rhs" || tokens[0] == "RHS");
 
             for (size_t t = 1; t < tokens.size(); t += 2) {
-- 
2.43.0


From 6a4bc16fa43b36ed750f7a272264a85f3834acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:40 +0000
Subject: [PATCH 27/31] fix: size the core and the good scores without
 overflowing narrow column index types

---
 src/algorithms/ThreePhase.hpp | 2 +-
 src/greedy/Greedy.hpp         | 6 ++++--
 src/subgradient/Pricer.hpp    | 6 +++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/algorithms/ThreePhase.hpp b/src/algorithms/ThreePhase.hpp
index 7d6a4ca..5f85c7f 100644
--- a/src/algorithms/ThreePhase.hpp
+++ b/src/algorithms/ThreePhase.hpp
@@ -160,7 +160,7 @@ private:
         core_inst.col_map.clear();
 
         // Select the first n columns of each row (there might be duplicates)
-        core_inst.col_map.reserve(checked_cast<size_t>(as_cidx(nrows) * min_row_coverage));
+        core_inst.col_map.reserve(cft::size(inst.rows) * checked_cast<size_t>(min_row_coverage));
         for (auto const& row : inst.rows)
             for (size_t n = 0; n < min(row.size(), min_row_coverage); ++n) {
                 cidx_t j = row[n];  // column covering row i
diff --git a/src/greedy/Greedy.hpp b/src/greedy/Greedy.hpp
index db0a281..5b57aba 100644
--- a/src/greedy/Greedy.hpp
+++ b/src/greedy/Greedy.hpp
@@ -66,8 +66,10 @@ public:
 
             // Get the column-fraction with best scores
             if (good_scores.empty()) {
-                auto good_size   = min(as_cidx(nrows_to_cover), csize(inst.cols) - csize(sol));
-                good_scores      = select_good_scores(score_info, good_size);
+                // The number of rows might not fit in cidx_t, the minimum always does
+                auto free_ncols  = cft::size(inst.cols) - cft::size(sol);
+                auto good_size   = min(checked_cast<size_t>(nrows_to_cover), free_ncols);
+                good_scores      = select_good_scores(score_info, as_cidx(good_size));
                 worst_good_score = good_scores.back().score;
             }
 
diff --git a/src/subgradient/Pricer.hpp b/src/subgradient/Pricer.hpp
index 0ac4d11..31e2e14 100644
--- a/src/subgradient/Pricer.hpp
+++ b/src/subgradient/Pricer.hpp
@@ -75,9 +75,9 @@ private:
             if (reduced_costs[j] < 0.1_F)
                 idxs.push_back(j);
 
-        cidx_t const maxsize = as_cidx(5_R * rsize(inst.rows));
-        if (csize(idxs) > maxsize) {
-            cft::nth_element(idxs, maxsize - 1_C, [&](cidx_t i) { return reduced_costs[i]; });
+        size_t const maxsize = 5ULL * cft::size(inst.rows);  // might not fit in cidx_t
+        if (cft::size(idxs) > maxsize) {
+            cft::nth_element(idxs, maxsize - 1ULL, [&](cidx_t i) { return reduced_costs[i]; });
             idxs.resize(maxsize);
         }
 
-- 
2.43.0


From 23c76ff199bdb1c2eddcf80fb392074229550a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:19 +0000
Subject: [PATCH 28/31] fix: compute the number of columns to fix without
 overflowing narrow index types

---
 src/fixing/ColFixing.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fixing/ColFixing.hpp b/src/fixing/ColFixing.hpp
index 3cbb99b..406b051 100644
--- a/src/fixing/ColFixing.hpp
+++ b/src/fixing/ColFixing.hpp
@@ -43,8 +43,15 @@ public:
         _select_non_overlapping_cols(inst, lagr_mult, row_coverage, cols_to_fix, reduced_costs);
         cidx_t no_overlap_ncols = csize(cols_to_fix);
 
-        cidx_t fix_at_least = csize(cols_to_fix) + max(1_C, as_cidx(orig_nrows / 200_R));
-        greedy(inst, lagr_mult, reduced_costs, cols_to_fix, limits<real_t>::max(), fix_at_least);
+        // Computed with size_t because it might not fit in narrow index types
+        size_t fix_at_least = max(1ULL, checked_cast<size_t>(orig_nrows) / 200ULL);
+        fix_at_least        = min(cft::size(cols_to_fix) + fix_at_least, cft::size(inst.cols));
+        greedy(inst,
+               lagr_mult,
+               reduced_costs,
+               cols_to_fix,
+               limits<real_t>::max(),
+               as_cidx(fix_at_least));
 
         fix_columns_and_compute_maps(cols_to_fix, inst, fixing, old2new);
         _apply_maps_to_lagr_mult(old2new, lagr_mult);
-- 
2.43.0


From 3118f782d96de7c9325d788f6b680a017544d7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 29/31] fix: coin_flip never succeeds with probability zero

---
 src/utils/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/random.hpp b/src/utils/random.hpp
index dde8aaf..609cba2 100644
--- a/src/utils/random.hpp
+++ b/src/utils/random.hpp
@@ -99,7 +99,7 @@ inline IntT roll_dice(RndT& rnd, IntT min, IntT max) {
 template <typename RndT>
 inline bool coin_flip(RndT& rnd, double true_prob = 0.5) {
     assert(0 <= true_prob && true_prob <= 1);
-    return canonical_gen<double>(rnd) <= true_prob;
+    return canonical_gen<double>(rnd) < true_prob;
 }
 
 }  // namespace cft
-- 
2.43.0


From 1d3c830b06e24a0a7df88926ee25537752d0c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:25 +0000
Subject: [PATCH 30/31] fix: roll_dice over ranges whose width does not fit the
 integer type

---
 src/utils/random.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utils/random.hpp b/src/utils/random.hpp
index 609cba2..8dc7c60 100644
--- a/src/utils/random.hpp
+++ b/src/utils/random.hpp
@@ -90,7 +90,15 @@ inline IntT roll_dice(RndT& rnd, IntT min, IntT max) {
     static_assert(std::is_unsigned<gen_type>::value, "PRNG result is not unsigned.");
     assert(max >= min);
 
-    IntT result = min + checked_cast<IntT>(rnd() % checked_cast<gen_type>(max - min + IntT{1}));
+    // Unsigned arithmetic, the number of values in the range might not fit in IntT
+    uint64_t const first = static_cast<uint64_t>(native_cast(min));
+    uint64_t const span  = static_cast<uint64_t>(native_cast(max)) - first;
+
+    gen_type word = rnd();
+    if (checked_cast<gen_type>(span) < limits<gen_type>::max())
+        word %= checked_cast<gen_type>(span + 1U);
+
+    IntT result = IntT{static_cast<native_t<IntT>>(first + word)};
     assert(min <= result && result <= max);
     return result;
 }
-- 
2.43.0


From 6c3977e69988c992ddc6dec95331d1bdb2995169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 31/31] fix: roll_dice favored the first values of wide ranges

---
 src/utils/random.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils/random.hpp b/src/utils/random.hpp
index 8dc7c60..589628c 100644
--- a/src/utils/random.hpp
+++ b/src/utils/random.hpp
@@ -95,8 +95,14 @@ inline IntT roll_dice(RndT& rnd, IntT min, IntT max) {
     uint64_t const span  = static_cast<uint64_t>(native_cast(max)) - first;
 
     gen_type word = rnd();
-    if (checked_cast<gen_type>(span) < limits<gen_type>::max())
-        word %= checked_cast<gen_type>(span + 1U);
+    if (checked_cast<gen_type>(span) < limits<gen_type>::max()) {
+        // Words beyond the last multiple of the number of values would favor the first ones
+        gen_type const nvalues = checked_cast<gen_type>(span + 1U);
+        gen_type const excess  = (limits<gen_type>::max() - nvalues + 1U) % nvalues;
+        while (word > limits<gen_type>::max() - excess)
+            word = rnd();
+        word %= nvalues;
+    }
 
     IntT result = IntT{static_cast<native_t<IntT>>(first + word)};
     assert(min <= result && result <= max);
-- 
2.43.0

