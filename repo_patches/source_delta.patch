From 916a7b6483d66c6510eff686113c97b0be8a746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:11 +0000
Subject: [PATCH 01/22] fix: report end of file and read errors instead of
 reusing the last line

FileLineIterator::next() ignored the outcome of std::getline. Once the input
ended early (or a read failed) it kept returning the last line read, so that a
truncated file without a final newline was silently completed with repeated
data, and the MPS parser never terminated.
---
 src/core/parsing.hpp      | 5 ++++-
 src/utils/parse_utils.hpp | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index de38c82..687587f 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -163,7 +163,10 @@ inline FileData parse_cvrp_instance(std::string const& path) {
         fdata.inst.cols.begs.push_back(csize(fdata.inst.cols.idxs));
     }
 
-    line_view = file_iter.next();
+    if (file_iter.at_end())  // The initial solution is optional
+        line_view = StringView("");
+    else
+        line_view = file_iter.next();
     while (!line_view.empty()) {
         cidx_t j = string_to<cidx_t>::consume(line_view);
         fdata.init_sol.idxs.push_back(j);
diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 85eb441..4aa97b1 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -130,8 +130,14 @@ struct FileLineIterator {
             throw std::invalid_argument(fmt::format("Cannot open file {}", path));
     }
 
+    // True if there are no more lines to read. Read errors are reported by next().
+    bool at_end() {
+        return in.peek() == std::ifstream::traits_type::eof() && !in.bad();
+    }
+
     StringView next() {
-        std::getline(in, line);
+        if (!std::getline(in, line))
+            throw std::invalid_argument("Unexpected end of file or read error.");
         return trim(StringView(line));
     }
 };
-- 
2.43.0


From b56b755b2081013047403746de81afbb11e482fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:11 +0000
Subject: [PATCH 02/22] fix: reject out of range indexes in RAIL and CVRP files

RAIL row index 0 (or negative), negative CVRP row indexes and out of range
columns in the CVRP initial solution passed the range checks and led to out of
bounds accesses.
---
 src/core/parsing.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 687587f..8847324 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -31,6 +31,12 @@ namespace local { namespace {
         cidx_t cols;
     };
 
+    // Check that an index is in the range [0, size), negative values included.
+    template <typename IdxT>
+    bool is_valid_idx(IdxT idx, IdxT size) {
+        return !(idx < IdxT{}) && idx < size;
+    }
+
     InstSize read_nrows_and_ncols(FileLineIterator& file_iter) {
         auto line_view = file_iter.next();
         auto num       = InstSize();
@@ -125,9 +131,10 @@ inline Instance parse_rail_instance(std::string const& path) {
             throw std::invalid_argument("Invalid file format: not a RAIL instance?");
 
         for (ridx_t n = 0_R; n < j_nrows; n++) {
-            inst.cols.idxs.push_back(string_to<ridx_t>::parse(tokens[n]) - 1_R);
-            if (inst.cols.idxs.back() >= num.rows)
+            auto i = string_to<ridx_t>::parse(tokens[n]);
+            if (i < 1_R || num.rows < i)
                 throw std::invalid_argument("Invalid file format: not a RAIL instance?");
+            inst.cols.idxs.push_back(i - 1_R);
         }
         inst.cols.begs.push_back(csize(inst.cols.idxs));
     }
@@ -157,7 +164,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
 
         while (!line_view.empty()) {
             fdata.inst.cols.idxs.push_back(string_to<ridx_t>::consume(line_view));
-            if (fdata.inst.cols.idxs.back() >= num.rows)
+            if (!local::is_valid_idx(fdata.inst.cols.idxs.back(), num.rows))
                 throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         }
         fdata.inst.cols.begs.push_back(csize(fdata.inst.cols.idxs));
@@ -169,6 +176,8 @@ inline FileData parse_cvrp_instance(std::string const& path) {
         line_view = file_iter.next();
     while (!line_view.empty()) {
         cidx_t j = string_to<cidx_t>::consume(line_view);
+        if (!local::is_valid_idx(j, num.cols))
+            throw std::invalid_argument("Invalid column index in the initial solution.");
         fdata.init_sol.idxs.push_back(j);
         fdata.init_sol.cost += fdata.inst.costs[j];
     }
-- 
2.43.0


From c8846438f23092c2cd305715dbbfdb526db1810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:11 +0000
Subject: [PATCH 03/22] fix: reject malformed ROWS and COLUMNS sections in MPS
 files

Unknown row names were silently mapped to the first row, and rows without a
name or names without a value led to out of bounds accesses.
---
 src/core/parsing.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 8847324..00c02d3 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -204,6 +204,9 @@ inline Instance parse_mps_instance(std::string const& path) {
     auto   obj_name = std::string();
     while (line_view != "COLUMNS") {
         auto tokens = split(line_view);
+        if (tokens.size() == 1 && (tokens[0] == "N" || tokens[0] == "G" || tokens[0] == "E" ||
+                                   tokens[0] == "L"))
+            throw std::invalid_argument("Invalid file format: row without a name.");
         if (!tokens.empty() && tokens[0] == "N")
             obj_name = tokens[1].to_cpp_string();
         if (!tokens.empty() && (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L"))
@@ -228,14 +231,17 @@ inline Instance parse_mps_instance(std::string const& path) {
             inst.costs.push_back(limits<real_t>::max());
         }
 
+        if (tokens.size() % 2 == 0)
+            throw std::invalid_argument("Invalid file format: missing value in COLUMNS section.");
         for (size_t t = 1; t < tokens.size(); t += 2) {
             if (tokens[t] == obj_name)
                 inst.costs.back() = string_to<real_t>::parse(tokens[t + 1]);
             else {
-                auto row_name = tokens[t];
-                assert(rows_map.find(row_name.to_cpp_string()) != rows_map.end());
+                auto row = rows_map.find(tokens[t].to_cpp_string());
+                if (row == rows_map.end())
+                    throw std::invalid_argument("Invalid file format: unknown row name.");
                 assert(tokens[t + 1] == "1" || tokens[t + 1] == "-1");
-                inst.cols.idxs.push_back(rows_map[row_name.to_cpp_string()]);
+                inst.cols.idxs.push_back(row->second);
             }
         }
 
-- 
2.43.0


From 58dee9f4c3a1bb68beb1f33a9b4d35e4b4f4a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:11 +0000
Subject: [PATCH 04/22] fix: reject instance files without a feasible solution

A row that no column covers sent the solver into an endless loop, a row repeated
within a column made it return covers with uncovered rows, and an instance
without rows ended with the maximum representable cost.
---
 src/core/parsing.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 00c02d3..b13f3fa 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -37,6 +37,19 @@ namespace local { namespace {
         return !(idx < IdxT{}) && idx < size;
     }
 
+    // Check that the instance read has a solution and is well formed.
+    inline void check_parsed_inst(Instance const& inst) {
+        if (inst.rows.empty())
+            throw std::invalid_argument("Invalid instance: no rows to cover.");
+        for (auto const& row : inst.rows) {
+            if (row.empty())
+                throw std::invalid_argument("Invalid instance: row not covered by any column.");
+            for (size_t n = 1; n < row.size(); ++n)  // NOTE: columns are in increasing order
+                if (row[n - 1] == row[n])
+                    throw std::invalid_argument("Invalid instance: repeated row in a column.");
+        }
+    }
+
     InstSize read_nrows_and_ncols(FileLineIterator& file_iter) {
         auto line_view = file_iter.next();
         auto num       = InstSize();
@@ -300,6 +313,7 @@ inline FileData parse_inst_and_initsol(Environment const& env) {
         throw std::runtime_error("Parser does not exists.");
     }
 
+    local::check_parsed_inst(fdata.inst);
     if (!env.initsol_path.empty()) {
         fdata.init_sol = parse_solution(env.initsol_path);
         CFT_IF_DEBUG(check_inst_solution(fdata.inst, fdata.init_sol));
-- 
2.43.0


From d97ce52e0f3dd4550e27255538b61c09262e6cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:11 +0000
Subject: [PATCH 05/22] fix: validate the initial solution before using it

A torn or foreign initial solution (e.g., left behind by a run killed while
writing it) was accepted as is by release builds and returned as the best
solution, although it did not cover the instance or had another cost.
---
 src/core/parsing.hpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index b13f3fa..ceefa2e 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -12,6 +12,7 @@
 
 #include "core/Instance.hpp"
 #include "core/cft.hpp"
+#include "utils/CoverCounters.hpp"
 #include "utils/SparseBinMat.hpp"
 #include "utils/StringView.hpp"
 #include "utils/assert.hpp"  // IWYU pragma:  keep
@@ -50,6 +51,23 @@ namespace local { namespace {
         }
     }
 
+    // Check that the initial solution is a cover of the instance and compute its actual cost.
+    inline void check_init_sol(Instance const& inst, Solution& sol) {
+        auto row_coverage = CoverCounters(inst.rows.size());
+        auto taken_cols   = std::vector<bool>(inst.cols.size(), false);
+        auto covered_rows = size_t{0};
+        sol.cost          = 0.0_F;
+        for (cidx_t j : sol.idxs) {
+            if (!is_valid_idx(j, csize(inst.cols)) || taken_cols[j])
+                throw std::invalid_argument("Invalid initial solution: bad column index.");
+            taken_cols[j] = true;
+            sol.cost += inst.costs[j];
+            covered_rows += row_coverage.cover(inst.cols[j]);
+        }
+        if (covered_rows < inst.rows.size())
+            throw std::invalid_argument("Invalid initial solution: not all rows are covered.");
+    }
+
     InstSize read_nrows_and_ncols(FileLineIterator& file_iter) {
         auto line_view = file_iter.next();
         auto num       = InstSize();
@@ -314,8 +332,11 @@ inline FileData parse_inst_and_initsol(Environment const& env) {
     }
 
     local::check_parsed_inst(fdata.inst);
-    if (!env.initsol_path.empty()) {
+    if (!env.initsol_path.empty())
         fdata.init_sol = parse_solution(env.initsol_path);
+
+    if (!fdata.init_sol.idxs.empty()) {
+        local::check_init_sol(fdata.inst, fdata.init_sol);
         CFT_IF_DEBUG(check_inst_solution(fdata.inst, fdata.init_sol));
     }
 
-- 
2.43.0


From a6191948d4b7bcec6e9ec36b13c75460f1cf78ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:11 +0000
Subject: [PATCH 06/22] fix: report failures while writing the solution file

Write and close errors (e.g., disk full) were ignored, and the program exited
successfully without having stored the solution.
---
 src/core/parsing.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index ceefa2e..60c97f0 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -305,6 +305,8 @@ inline void write_solution(std::string const& path, Solution const& sol) {
     for (cidx_t j : sol.idxs)
         fmt::print(file, " {}", j);
     file.close();
+    if (!file)
+        throw std::runtime_error("Failed to write the solution to file: " + path);
 }
 
 inline FileData parse_inst_and_initsol(Environment const& env) {
-- 
2.43.0


From 5b38189afc1639d64bdc411616c7e3c7d0c44540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:33 +0000
Subject: [PATCH 07/22] fix: make the seed set from Python take effect

Setting Environment.seed did not reseed the generator, so the seed argument of
SetCoverSolver.solve() was ignored.
---
 src/pycft/_bindings.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index eb92987..974b534 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -66,7 +66,10 @@ PYBIND11_MODULE(_bindings, m) {
         .def_readwrite("sol_path", &Environment::sol_path)
         .def_readwrite("initsol_path", &Environment::initsol_path)
         .def_readwrite("parser", &Environment::parser)
-        .def_readwrite("seed", &Environment::seed)
+        .def_property(
+            "seed",
+            [](Environment const& self) { return self.seed; },
+            [](Environment& self, uint64_t seed) { self.rnd = prng_t(self.seed = seed); })
         .def_readwrite("time_limit", &Environment::time_limit)
         .def_readwrite("verbose", &Environment::verbose)
         .def_readwrite("epsilon", &Environment::epsilon)
-- 
2.43.0


From 1176cd1c301dd4451ddbebb8d01b023f03d6b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:33 +0000
Subject: [PATCH 08/22] fix: expose the multipliers to Python

SetCoverSolver.get_dual_multipliers() always failed with an AttributeError.
---
 src/pycft/_bindings.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index 974b534..693e936 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -159,6 +159,7 @@ PYBIND11_MODULE(_bindings, m) {
     py::class_<DualState>(m, "DualState")
         .def(py::init<>())
         .def_readwrite("idxs", &DualState::mults)
+        .def_readwrite("mults", &DualState::mults)
         .def_readwrite("cost", &DualState::lb)
         .def("copy", [](DualState const& a) { return a; })
         .def("__repr__", [](DualState const& a) {
-- 
2.43.0


From d7ecf31b2d1f7924e8ab8e303a4bc9e1017a6230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:33 +0000
Subject: [PATCH 09/22] fix: make SetCoverSolver.from_file work

It always failed with an AttributeError, since the previous result is None (or
has no `solution` attribute). Also keep track of the number of elements, so that
adding a set with a new element invalidates the current solution.
---
 src/pycft/set_cover_solver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index d47876e..7066743 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -82,9 +82,11 @@ class SetCoverSolver:
         env.parser = parser
         fdata = parse_inst_and_initsol(env)
         self._instance = fdata.inst.copy()
-        self._result.solution = fdata.init_sol.copy()
-        print(self._result)
-        self.num_elements = len(self._instance.costs)
+        self._max_element = len(self._instance.rows) - 1
+        self._result = None
+        if fdata.init_sol.idxs:
+            self._result = CftResult()
+            self._result.sol = fdata.init_sol.copy()
         self._initialized = True  # a file is always considered initialized
 
     def solve(
-- 
2.43.0


From ae4d4add0744a9c7f753363205d9482ff1e008a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:33 +0000
Subject: [PATCH 10/22] fix: make adding a set from Python atomic and tolerate
 repeated elements

A rejected set dropped the current solution (and could leave a column without
cost behind), while a set with a repeated element made the solver return covers
with uncovered elements.
---
 src/pycft/_bindings.cpp       | 14 ++++++++++++--
 src/pycft/set_cover_solver.py |  4 ++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index 693e936..e187c52 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -124,10 +124,20 @@ PYBIND11_MODULE(_bindings, m) {
         .def_readwrite("costs", &Instance::costs)
         .def("add",
              [](Instance& self, std::vector<ridx_t> const& col, real_t cost) {
-                 self.cols.push_back(col);
                  if (cost < 0.0)
                      throw std::runtime_error("Costs must be non-negative.");
-                 self.costs.push_back(cost);
+                 auto const ncosts = self.costs.size();
+                 auto const nbegs  = self.cols.begs.size();
+                 auto const nidxs  = self.cols.idxs.size();
+                 try {
+                     self.cols.push_back(col);
+                     self.costs.push_back(cost);
+                 } catch (...) {  // Add both the column and its cost, or none of them
+                     self.costs.resize(ncosts);
+                     self.cols.begs.resize(nbegs);
+                     self.cols.idxs.resize(nidxs);
+                     throw;
+                 }
                  return self.costs.size() - 1;
              })
         .def("copy", [](Instance const& a) { return a; })
diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index 7066743..f2f25fe 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -61,14 +61,14 @@ class SetCoverSolver:
         if not all(0 <= e for e in elements):
             raise ValueError("Elements must be zero-indexed.")
         max_element = max(elements)
+        self._instance.add(list(dict.fromkeys(elements)), cost)  # w/o repetitions
+        self._initialized = False
         if max_element > self._max_element:
             self._max_element = max_element
             self._result = (
                 None  # in case there is a new element, the solution is no longer
             )
             # valid
-        self._instance.add(elements, cost)
-        self._initialized = False
         return len(self._instance.costs) - 1
 
     def from_file(self, filename: str | Path, parser: str = "RAIL") -> None:
-- 
2.43.0


From 80acd415cb0cbf89763a5175f1331a6959813764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 11/22] fix: do not accept greedy solutions that are not below
 the cutoff

With epsilon equal to 0 (or lost in the roundings) a greedy solution whose cost equals the cutoff was
accepted, but its redundant columns are removed only below the cutoff, so cost and columns differ.
---
 src/subgradient/Subgradient.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/subgradient/Subgradient.hpp b/src/subgradient/Subgradient.hpp
index 395dd0d..db8436b 100644
--- a/src/subgradient/Subgradient.hpp
+++ b/src/subgradient/Subgradient.hpp
@@ -144,7 +144,8 @@ public:
             greedy_sol.idxs.clear();
             greedy_sol.cost = greedy(core_inst, lagr_mult, reduced_costs, greedy_sol.idxs, cutoff);
             print<5>(env, "HEUR> {:4}: Greedy solution {:.2f}\n", iter, best_sol.cost);
-            if (greedy_sol.cost <= best_sol.cost - env.epsilon) {
+            // Solutions not below the cutoff are not complete (see Greedy)
+            if (greedy_sol.cost < cutoff && greedy_sol.cost <= best_sol.cost - env.epsilon) {
                 best_sol = greedy_sol;
                 print<4>(env, "HEUR> {:4}: Improved solution {:.2f}\n", iter, best_sol.cost);
                 CFT_IF_DEBUG(check_inst_solution(core_inst, best_sol));
-- 
2.43.0


From c4c37712e0f55dd649b02f12c0f42cfaa7f89f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 12/22] fix: do not take an empty heuristic solution as an
 improvement

With fractional costs (best - fixed) + fixed can be below best after the roundings, and the empty
solution replaced the best one.
---
 src/algorithms/ThreePhase.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/ThreePhase.hpp b/src/algorithms/ThreePhase.hpp
index 6f31983..7224234 100644
--- a/src/algorithms/ThreePhase.hpp
+++ b/src/algorithms/ThreePhase.hpp
@@ -61,7 +61,8 @@ public:
             sol.cost = cutoff;  // Sol get filled only if one with cost < cutoff is found
             subgrad.heuristic(env, core.inst, step_size, greedy, sol, lagr_mult);
 
-            if (sol.cost + fixing.fixed_cost < best_sol.cost) {
+            // NOTE: if nothing was found, the roundings of cutoff can still satisfy the comparison
+            if (!sol.idxs.empty() && sol.cost + fixing.fixed_cost < best_sol.cost) {
                 _from_core_to_unfixed_sol(sol, core, fixing, best_sol);
                 CFT_IF_DEBUG(check_inst_solution(inst_copy, best_sol));
             }
-- 
2.43.0


From 6d6e8efc5e3206ed31b046761cfea5217504af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:40 +0000
Subject: [PATCH 13/22] fix: reset the fixing when refinement has nothing to
 fix

With no column to fix the whole instance was solved together with the fixing data of an earlier round:
wrong columns and costs, and possibly an endless loop.
---
 src/algorithms/Refinement.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/Refinement.hpp b/src/algorithms/Refinement.hpp
index 7997b70..20ce9c6 100644
--- a/src/algorithms/Refinement.hpp
+++ b/src/algorithms/Refinement.hpp
@@ -128,10 +128,9 @@ inline CftResult run(Environment const& env,                // in
 
         inst             = orig_inst;
         auto cols_to_fix = select_cols_to_fix(env, inst, nofix_dual.mults, best_sol);
-        if (!cols_to_fix.empty()) {
-            make_identity_fixing_data(ncols, nrows, fixing);
+        make_identity_fixing_data(ncols, nrows, fixing);
+        if (!cols_to_fix.empty())
             fix_columns_and_compute_maps(cols_to_fix, inst, fixing, old2new);
-        }
         real_t nrows_real = as_real(rsize(orig_inst.rows));
         real_t free_perc  = as_real(rsize(inst.rows)) * 100.0_F / nrows_real;
         print<2>(env,
-- 
2.43.0


From 76eb59e7c0e42548512fb52e9386e53444cad454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:27 +0000
Subject: [PATCH 14/22] fix: columns of MPS files without an objective entry
 cost nothing

---
 src/core/parsing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 60c97f0..da8624a 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -259,7 +259,7 @@ inline Instance parse_mps_instance(std::string const& path) {
         if (tokens[0] != prev_col_name) {  // new column
             prev_col_name = tokens[0].to_cpp_string();
             inst.cols.begs.push_back(csize(inst.cols.idxs));
-            inst.costs.push_back(limits<real_t>::max());
+            inst.costs.push_back(0.0_F);
         }
 
         if (tokens.size() % 2 == 0)
-- 
2.43.0


From dfa490f183215e3e34dab20edf883639ba3465a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 15/22] fix: pycft: refuse to prepare an instance without items

---
 src/pycft/_bindings.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index e187c52..c877c18 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -25,6 +25,9 @@ namespace local { namespace {
             for (ridx_t i : cols[j])
                 n = std::max(n, static_cast<size_t>(i + 1));
 
+        if (n == 0)
+            throw std::runtime_error("The instance has no items.");
+
         // Guard against the user entering huge indices because they
         // might have misunderstood the 0-based indexing.
         if (n > cols.idxs.size()) {
-- 
2.43.0


From 7ece82bb229bf395466e51ae323309ec5e0e28f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 16/22] fix: pycft: add_set returns the index of the added set,
 from_file is atomic

---
 src/pycft/set_cover_solver.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index f2f25fe..005d048 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -61,7 +61,7 @@ class SetCoverSolver:
         if not all(0 <= e for e in elements):
             raise ValueError("Elements must be zero-indexed.")
         max_element = max(elements)
-        self._instance.add(list(dict.fromkeys(elements)), cost)  # w/o repetitions
+        index = self._instance.add(list(dict.fromkeys(elements)), cost)  # w/o repetitions
         self._initialized = False
         if max_element > self._max_element:
             self._max_element = max_element
@@ -69,7 +69,7 @@ class SetCoverSolver:
                 None  # in case there is a new element, the solution is no longer
             )
             # valid
-        return len(self._instance.costs) - 1
+        return index
 
     def from_file(self, filename: str | Path, parser: str = "RAIL") -> None:
         """
@@ -81,12 +81,16 @@ class SetCoverSolver:
         env.inst_path = str(filename)
         env.parser = parser
         fdata = parse_inst_and_initsol(env)
-        self._instance = fdata.inst.copy()
-        self._max_element = len(self._instance.rows) - 1
-        self._result = None
+        instance = fdata.inst.copy()
+        max_element = len(instance.rows) - 1
+        result = None
         if fdata.init_sol.idxs:
-            self._result = CftResult()
-            self._result.sol = fdata.init_sol.copy()
+            result = CftResult()
+            result.sol = fdata.init_sol.copy()
+        # Nothing can fail from here on: the object changes as a whole or not at all
+        self._instance = instance
+        self._max_element = max_element
+        self._result = result
         self._initialized = True  # a file is always considered initialized
 
     def solve(
-- 
2.43.0


From 21d3a64e36fe716e6ab0cef5963668379dbf5686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 17/22] fix: parse reals with a single rounding so that written
 costs read back exactly

---
 src/utils/parse_utils.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 4aa97b1..ec92bda 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -9,6 +9,7 @@
 
 #include <cerrno>
 #include <cstddef>
+#include <cstdlib>
 #include <fstream>
 #include <stdexcept>
 #include <type_traits>
@@ -90,7 +91,13 @@ struct string_to {
         errno              = 0;
 
         if (std::is_floating_point<val_t>::value) {
-            val      = std::strtold(str.data(), &end);
+            // NOTE: parsing a long double to convert it later would round twice
+            if (std::is_same<val_t, float>::value)
+                val = std::strtof(str.data(), &end);
+            else if (std::is_same<val_t, double>::value)
+                val = std::strtod(str.data(), &end);
+            else
+                val = std::strtold(str.data(), &end);
             oo_range = !std::isfinite(val);
         } else if (std::is_signed<val_t>::value) {
             val      = std::strtoll(str.data(), &end, 10);
-- 
2.43.0


From 9987c6c9e6441715fe026f6db413afe21be3c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 18/22] fix: size of the nonzeros is not limited by the column
 index type

Column offsets are size_t, but they were computed through cidx_t: with a
narrow index type, instances with more nonzeros than the largest column
index were refused, or read with wrong offsets.
---
 src/core/Instance.hpp |  2 +-
 src/core/parsing.hpp  | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/Instance.hpp b/src/core/Instance.hpp
index 07eee2c..39544f0 100644
--- a/src/core/Instance.hpp
+++ b/src/core/Instance.hpp
@@ -64,7 +64,7 @@ inline void fill_rows_from_cols(SparseBinMat<ridx_t> const&       cols,   // in
     rows.resize(nrows);
     for (auto& row : rows) {
         row.clear();
-        row.reserve(csize(cols.idxs) / as_cidx(nrows));
+        row.reserve(cols.idxs.size() / rows.size());
     }
 
     for (cidx_t j = 0_C; j < csize(cols); ++j)
diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index da8624a..bc6b9b8 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -136,7 +136,7 @@ inline Instance parse_scp_instance(std::string const& path) {
     for (auto const& col : cols) {
         for (ridx_t i : col)
             inst.cols.idxs.push_back(i);
-        inst.cols.begs.push_back(csize(inst.cols.idxs));
+        inst.cols.begs.push_back(inst.cols.idxs.size());
     }
 
     inst.cols = SparseBinMat<ridx_t>();
@@ -167,7 +167,7 @@ inline Instance parse_rail_instance(std::string const& path) {
                 throw std::invalid_argument("Invalid file format: not a RAIL instance?");
             inst.cols.idxs.push_back(i - 1_R);
         }
-        inst.cols.begs.push_back(csize(inst.cols.idxs));
+        inst.cols.begs.push_back(inst.cols.idxs.size());
     }
 
     fill_rows_from_cols(inst.cols, num.rows, inst.rows);
@@ -198,7 +198,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
             if (!local::is_valid_idx(fdata.inst.cols.idxs.back(), num.rows))
                 throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         }
-        fdata.inst.cols.begs.push_back(csize(fdata.inst.cols.idxs));
+        fdata.inst.cols.begs.push_back(fdata.inst.cols.idxs.size());
     }
 
     if (file_iter.at_end())  // The initial solution is optional
@@ -258,7 +258,7 @@ inline Instance parse_mps_instance(std::string const& path) {
 
         if (tokens[0] != prev_col_name) {  // new column
             prev_col_name = tokens[0].to_cpp_string();
-            inst.cols.begs.push_back(csize(inst.cols.idxs));
+            inst.cols.begs.push_back(inst.cols.idxs.size());
             inst.costs.push_back(0.0_F);
         }
 
@@ -278,7 +278,7 @@ inline Instance parse_mps_instance(std::string const& path) {
 
         line_view = file_iter.next();
     }
-    inst.cols.begs.push_back(csize(inst.cols.idxs));
+    inst.cols.begs.push_back(inst.cols.idxs.size());
 
     CFT_IF_DEBUG(local::mps_epilogue_check(file_iter, rows_map));
     fill_rows_from_cols(inst.cols, nrows, inst.rows);
-- 
2.43.0


From 852e454ec2b6437066024c5c76f5646ce9454875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 19/22] fix: no stale lower bound after a set has been added

A set that is added without new elements keeps the previous solution, but
the previous bound can be above the optimum of the extended instance.
---
 src/pycft/set_cover_solver.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index 005d048..a256590 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -50,6 +50,7 @@ class SetCoverSolver:
         self._result = None
         self._instance = Instance()
         self._initialized = False
+        self._bound_is_valid = False  # new sets can be cheaper than the last bound
         self._max_element = -1
 
     def add_set(self, elements: list[int], cost: float) -> int:
@@ -63,6 +64,7 @@ class SetCoverSolver:
         max_element = max(elements)
         index = self._instance.add(list(dict.fromkeys(elements)), cost)  # w/o repetitions
         self._initialized = False
+        self._bound_is_valid = False
         if max_element > self._max_element:
             self._max_element = max_element
             self._result = (
@@ -91,6 +93,7 @@ class SetCoverSolver:
         self._instance = instance
         self._max_element = max_element
         self._result = result
+        self._bound_is_valid = False
         self._initialized = True  # a file is always considered initialized
 
     def solve(
@@ -141,6 +144,7 @@ class SetCoverSolver:
             self._initialized = True
         init_sol = Solution() if self._result is None else self._result.sol
         self._result = run(env, self._instance, init_sol).copy()
+        self._bound_is_valid = True
 
     def get_solution(self) -> list[int] | None:
         """
@@ -160,9 +164,10 @@ class SetCoverSolver:
 
     def get_lower_bound(self) -> float:
         """
-        Return a lower bound on the optimal solution.
+        Return a lower bound on the optimal solution. It is 0 if the sets have not been solved
+        since the last one was added.
         """
-        if self._result is None:
+        if self._result is None or not self._bound_is_valid:
             return 0
         return self._result.dual.cost
 
-- 
2.43.0


From 3f0a4d59a57d2925524ea6edcce3f995c131a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 20/22] fix: self-check of solution costs allows for rounding

With float costs the same columns summed in another order differ by more
than 1e-6: debug builds aborted on valid instances.
---
 src/core/utils.hpp   | 10 +++++++---
 src/utils/limits.hpp |  4 ++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core/utils.hpp b/src/core/utils.hpp
index 6ebfb9d..8d5c8bc 100644
--- a/src/core/utils.hpp
+++ b/src/core/utils.hpp
@@ -24,11 +24,15 @@ inline void check_inst_solution(Instance const& inst, Solution const& sol) {
         covered_rows += as_ridx(row_coverage.cover(inst.cols[j]));
     assert(covered_rows == nrows);
 
-    // check cost
+    // check cost (summed in another order, thus with another rounding)
     real_t total_cost = 0.0_F;
-    for (cidx_t j : sol.idxs)
+    real_t magnitude  = 0.0_F;
+    for (cidx_t j : sol.idxs) {
         total_cost += inst.costs[j];
-    assert(abs(total_cost - sol.cost) < 1e-6_F);
+        magnitude += abs(inst.costs[j]);
+    }
+    real_t rounding = limits<real_t>::epsilon() * as_real(sol.idxs.size()) * magnitude;
+    assert(abs(total_cost - sol.cost) < 1e-6_F + rounding);
 }
 #endif
 
diff --git a/src/utils/limits.hpp b/src/utils/limits.hpp
index 8c0bd71..3542651 100644
--- a/src/utils/limits.hpp
+++ b/src/utils/limits.hpp
@@ -25,6 +25,10 @@ struct limits {
     static constexpr T inf() {
         return T{std::numeric_limits<native_t<T>>::infinity()};
     }
+
+    static constexpr T epsilon() {
+        return T{std::numeric_limits<native_t<T>>::epsilon()};
+    }
 };
 
 }  // namespace cft
-- 
2.43.0


From d93616252530c623e87a843a6829bfef687ea5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 21/22] fix: self-check of the lower bound allows for rounding

When the bound equals the optimum, its rounding error can lift it above
the cost of the solution: debug builds aborted on valid instances.
---
 src/subgradient/Subgradient.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/subgradient/Subgradient.hpp b/src/subgradient/Subgradient.hpp
index db8436b..453916f 100644
--- a/src/subgradient/Subgradient.hpp
+++ b/src/subgradient/Subgradient.hpp
@@ -152,7 +152,8 @@ public:
             }
 
             if (sqr_norm < 0.999_F) {  // Squared norm is an integer
-                assert(best_core_lb <= best_sol.cost && "Optimum is above cutoff");
+                assert(best_core_lb <= best_sol.cost + _rounding_error(core_inst, best_lagr_mult) &&
+                       "Optimum is above cutoff");
                 print<4>(env, "HEUR> {:4} Found optimal solution.\n", iter);
                 best_lagr_mult = lagr_mult;
                 return;
@@ -216,6 +217,18 @@ private:
         });
     }
 
+    // Bound on the rounding error of the lower bound computed from the given multipliers.
+    static real_t _rounding_error(Instance const&            inst,      // in
+                                  std::vector<real_t> const& lagr_mult  // in
+    ) {
+        real_t magnitude = 0.0_F;
+        for (real_t const cost : inst.costs)
+            magnitude += abs(cost);
+        for (ridx_t i = 0_R; i < rsize(inst.rows); ++i)
+            magnitude += lagr_mult[i] * as_real(inst.rows[i].size() + 1U);
+        return limits<real_t>::epsilon() * as_real(inst.rows.size() + inst.cols.size()) * magnitude;
+    }
+
     // Computes the row coverage of the given solution by including the best non-redundant columns.
     static void _compute_reduced_row_coverage(Instance const&            inst,           // in
                                               std::vector<real_t> const& reduced_costs,  // in
-- 
2.43.0


From 401d0282649a839a253012497b2fa527eb3b24d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 22/22] fix: self-check of the step size update with lower
 bounds of zero

The relative difference of zero bounds is not a number: debug builds
aborted when the bound stayed at zero for a whole period.
---
 src/subgradient/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subgradient/utils.hpp b/src/subgradient/utils.hpp
index 402ad2e..5c1c95b 100644
--- a/src/subgradient/utils.hpp
+++ b/src/subgradient/utils.hpp
@@ -38,7 +38,7 @@ namespace cft { namespace local { namespace {
             if (iter == next_update_iter) {
                 next_update_iter += period;
                 real_t diff = (max_lower_bound - min_lower_bound) / abs(max_lower_bound);
-                assert(diff >= 0.0_F && "Negative difference in lower bounds");
+                assert(max_lower_bound >= min_lower_bound && "Negative difference in lower bounds");
                 if (diff > 0.01_F)
                     curr_step_size /= 2.0_F;
                 if (diff <= 0.001_F)
-- 
2.43.0

