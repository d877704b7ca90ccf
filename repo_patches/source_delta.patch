From 1e9e15fe98a310ee0c50965c673df080ee40d8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 01/42] fix: to_nd reverses to_1d on grids whose sizes differ
 between dimensions

The three- and four-dimensional branches divided by the wrong dimension's
size, so an index of any non-cubic maze mapped to a wrong coordinate.
---
 include/utils/utils.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 55350c9..cab6c37 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -216,19 +216,19 @@ namespace chdr {
                 const auto w2 = _index % w1;
 
                 result = {
-                    w2 % _sizes[1U],
-                    w2 / _sizes[1U],
+                    w2 % _sizes[0U],
+                    w2 / _sizes[0U],
                     _index / w1
                 };
             }
             else if constexpr (Kd == 4U) {
-                const auto w1 = _sizes[2U] * _sizes[1U];
-                const auto w2 = w1 * _sizes[0U];
+                const auto w1 = _sizes[0U] * _sizes[1U];
+                const auto w2 = w1 * _sizes[2U];
                 const auto w3 = _index % w2;
 
                 result = {
-                    (w3 % w1) % _sizes[2U],
-                    (w3 % w1) / _sizes[2U],
+                    (w3 % w1) % _sizes[0U],
+                    (w3 % w1) / _sizes[0U],
                      w3 / w1,
                     _index / w2,
                 };
-- 
2.43.0


From c8722b8d84c97dadeba8ad2a8c4da4e77ab8037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:51 +0000
Subject: [PATCH 02/42] fix: paths padded with zero coordinates when the cost
 differs from the hop count

rbacktrack and rbacktrack_noreverse sized their result by the given depth
(the solvers pass the g-score). Without reversal the path was then appended
after as many zero coordinates; with reversal a cost above the number of
hops left zero coordinates at the front and a lower one wrote out of bounds.
The depth is now only a hint for reserving space.
---
 include/solvers/base/solver.hpp | 20 +++++++++++---------
 include/solvers/mgstar.hpp      | 19 +++++++++----------
 2 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 0218432..923cbb3 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -13,6 +13,7 @@
  * @file solver.hpp
  */
 
+#include <algorithm>
 #include <cstddef>
 #include <limits>
 #include <type_traits>
@@ -602,13 +603,13 @@ namespace chdr::solvers {
              *          through its parent pointers, converting each node's index into a coordinate
              *          using the dimensions provided in `_size`. The resulting path is stored in reverse order,
              *          where the first element corresponds to the root node and the last element corresponds
-             *          to the provided `_node`. The depth of the path is static, provided using the `_depth` parameter.
+             *          to the provided `_node`. The expected depth of the path is provided using the `_depth` parameter.
              *
              * @param [in] _node The node to begin backtracking from. This is assumed to be part of a structure
              *                   where nodes possess a parent pointer (`m_parent`) for traversal.
              * @param [in] _size The coordinate dimensions, used to convert an index to n-dimensional coordinates.
              *
-             * @param _depth The depth of the hierarchy, which determines the length of the resulting vector.
+             * @param _depth The expected depth of the hierarchy, used to reserve space in the resulting vector.
              *
              * @return A vector of n-dimensional coordinates representing the path from the root node
              *         to the provided `_node`.
@@ -616,13 +617,13 @@ namespace chdr::solvers {
             template<typename node_t, typename coord_t>
             static constexpr auto rbacktrack(const node_t& _node, const coord_t& _size, size_t _depth) {
 
-                std::vector<coord_t> result(_depth);
+                std::vector<coord_t> result{};
+                result.reserve(_depth);
 
-                size_t i = 0U;
                 for (const auto* RESTRICT t = &_node; t->m_parent != nullptr; t = static_cast<const node_t*>(t->m_parent)) {
-                    result[(result.size() - 1U) - i] = utils::to_nd(static_cast<typename coord_t::value_type>(t->m_index), _size);
-                    ++i;
+                    result.emplace_back(utils::to_nd(static_cast<typename coord_t::value_type>(t->m_index), _size));
                 }
+                std::reverse(result.begin(), result.end());
 
                 return result;
             }
@@ -633,13 +634,13 @@ namespace chdr::solvers {
              * @details This function iteratively backtracks from the specified node `_node` to its root
              *          through its parent pointers, converting each node's index into a coordinate
              *          using the dimensions provided in `_size`.
-             *          The depth of the path is static, provided using the `_depth` parameter.
+             *          The expected depth of the path is provided using the `_depth` parameter.
              *
              * @param [in] _node The node to begin backtracking from. This is assumed to be part of a structure
              *                   where nodes possess a parent pointer (`m_parent`) for traversal.
              * @param [in] _size The coordinate dimensions, used to convert an index to n-dimensional coordinates.
             *
-             * @param _depth The depth of the hierarchy, which determines the length of the resulting vector.
+             * @param _depth The expected depth of the hierarchy, used to reserve space in the resulting vector.
              *
              * @return A vector of n-dimensional coordinates representing the path from the root node
              *         to the provided `_node`.
@@ -647,7 +648,8 @@ namespace chdr::solvers {
             template<typename node_t, typename coord_t>
             static constexpr auto rbacktrack_noreverse(const node_t& _node, const coord_t& _size, size_t _depth) {
 
-                std::vector<coord_t> result(_depth);
+                std::vector<coord_t> result{};
+                result.reserve(_depth);
 
                 for (const auto* RESTRICT t = &_node; t->m_parent != nullptr; t = static_cast<const node_t*>(t->m_parent)) {
                     result.emplace_back(utils::to_nd(static_cast<typename coord_t::value_type>(t->m_index), _size));
diff --git a/include/solvers/mgstar.hpp b/include/solvers/mgstar.hpp
index 8eb3964..94e74fd 100644
--- a/include/solvers/mgstar.hpp
+++ b/include/solvers/mgstar.hpp
@@ -126,25 +126,24 @@ namespace chdr::solvers {
 
         static constexpr auto rbacktrack(const node& _node, const coord_t& _size, size_t _depth) {
 
-            std::vector<coord_t> result(_depth);
+            std::vector<coord_t> result{};
+            result.reserve(_depth);
 
-            const auto* RESTRICT t = &_node;
-            for (size_t i = 0U; i != _depth; ++i) {
-                result[(result.size() - 1U) - i] = utils::to_nd(t->m_index, _size);
-                t = static_cast<const node*>(t->m_parent);
+            for (const auto* RESTRICT t = &_node; t->m_parent != nullptr; t = static_cast<const node*>(t->m_parent)) {
+                result.emplace_back(utils::to_nd(t->m_index, _size));
             }
+            std::reverse(result.begin(), result.end());
 
             return result;
         }
 
         static constexpr auto rbacktrack_noreverse(const node& _node, const coord_t& _size, size_t _depth) {
 
-            std::vector<coord_t> result(_depth);
+            std::vector<coord_t> result{};
+            result.reserve(_depth);
 
-            const auto* RESTRICT t = &_node;
-            for (size_t i = 0U; i != _depth; ++i) {
-                result[i] = utils::to_nd(t->m_index, _size);
-                t = static_cast<const node*>(t->m_parent);
+            for (const auto* RESTRICT t = &_node; t->m_parent != nullptr; t = static_cast<const node*>(t->m_parent)) {
+                result.emplace_back(utils::to_nd(t->m_index, _size));
             }
 
             return result;
-- 
2.43.0


From 7707d221b392f230ceaadf717d4a1d954a19dd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 03/42] fix: idbest_first discarded the start node between
 iterations

Unlike its siblings it also removed the last remaining node of the open set,
so that every iteration after the first read the back of an empty vector:
paths that do not begin at the start, or none although one exists.
---
 include/solvers/idbest_first.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/solvers/idbest_first.hpp b/include/solvers/idbest_first.hpp
index eb853d3..29850e1 100644
--- a/include/solvers/idbest_first.hpp
+++ b/include/solvers/idbest_first.hpp
@@ -172,13 +172,17 @@ namespace chdr::solvers {
                             }
                         }
                         else {
-                            _open.pop_back();
+                            if (_open.size() > 1U) {
+                                _open.pop_back();
+                            }
                             stack.pop();
                         }
                     }
                     else {
                         min = utils::min(min, curr.m_hScore);
-                        _open.pop_back();
+                        if (_open.size() > 1U) {
+                            _open.pop_back();
+                        }
                         stack.pop();
                     }
                 }
-- 
2.43.0


From cd77be0c305dbe9f640135b33000c416b95b7b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 04/42] fix: iddfs and eiddfs kept using a stack whose memory
 had been reset

The monotonic pool is reset after every depth, but the stack that lives in it
was kept: later growth copied between overlapping buffers or from freed
blocks, which gave paths with non-adjacent cells.
---
 include/solvers/eiddfs.hpp | 3 +--
 include/solvers/iddfs.hpp  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index 831296d..61141b8 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -127,10 +127,9 @@ namespace chdr::solvers {
 
             _open.emplace_back(s, 0U);
 
-            stack<state<neighbours_t>> stack(_params.monotonic_pmr);
-
             for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
 
+                stack<state<neighbours_t>> stack(_params.monotonic_pmr);
                 stack.emplace(_open.back(), _params);
 
                 // Main loop:
diff --git a/include/solvers/iddfs.hpp b/include/solvers/iddfs.hpp
index bbde518..80d3f39 100644
--- a/include/solvers/iddfs.hpp
+++ b/include/solvers/iddfs.hpp
@@ -128,10 +128,9 @@ namespace chdr::solvers {
 
             _open.emplace_back(s, 0U);
 
-            stack<state<neighbours_t>> stack(_params.monotonic_pmr);
-
             for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
 
+                stack<state<neighbours_t>> stack(_params.monotonic_pmr);
                 stack.emplace(_open.back(), _params);
 
                 // Main loop:
-- 
2.43.0


From b9c637d7715ddac79e566b31782f6b6a19d0d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 05/42] fix: iddfs and eiddfs never returned when there is no
 path

The depth bound was increased for ever. Stop once an iteration has explored
every path without being cut short by the bound.
---
 include/solvers/eiddfs.hpp | 8 ++++++++
 include/solvers/iddfs.hpp  | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index 61141b8..4172bdb 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -132,6 +132,8 @@ namespace chdr::solvers {
                 stack<state<neighbours_t>> stack(_params.monotonic_pmr);
                 stack.emplace(_open.back(), _params);
 
+                bool exhausted = true; // Becomes false if the bound cuts the search short.
+
                 // Main loop:
                 while (!stack.empty()) {
 
@@ -160,6 +162,8 @@ namespace chdr::solvers {
                         }
                     }
                     else {
+                        exhausted &= curr.m_depth <= bound;
+
                         if (_open.size() > 1U) {
                             _open.pop_back();
                         }
@@ -171,6 +175,10 @@ namespace chdr::solvers {
                 if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
                     _params.monotonic_pmr->reset();
                 }
+
+                if (exhausted) {
+                    break; // Every path was explored in full: there is no solution.
+                }
             }
 
             return std::vector<coord_t>{};
diff --git a/include/solvers/iddfs.hpp b/include/solvers/iddfs.hpp
index 80d3f39..bf0271c 100644
--- a/include/solvers/iddfs.hpp
+++ b/include/solvers/iddfs.hpp
@@ -133,6 +133,8 @@ namespace chdr::solvers {
                 stack<state<neighbours_t>> stack(_params.monotonic_pmr);
                 stack.emplace(_open.back(), _params);
 
+                bool exhausted = true; // Becomes false if the bound cuts the search short.
+
                 // Main loop:
                 while (!stack.empty()) {
 
@@ -157,6 +159,8 @@ namespace chdr::solvers {
                         }
                     }
                     else {
+                        exhausted &= curr.m_depth <= bound;
+
                         if (_open.size() > 1U) {
                             _open.pop_back();
                         }
@@ -167,6 +171,10 @@ namespace chdr::solvers {
                 if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
                     _params.monotonic_pmr->reset();
                 }
+
+                if (exhausted) {
+                    break; // Every path was explored in full: there is no solution.
+                }
             }
 
             return std::vector<coord_t>{};
-- 
2.43.0


From d85fa7e0bfd6f4200ad289b358beaff12ce63b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 06/42] fix: eiddfs read a node after removing it from the open
 set

---
 include/solvers/eiddfs.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index 4172bdb..c2d9dc3 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -164,11 +164,12 @@ namespace chdr::solvers {
                     else {
                         exhausted &= curr.m_depth <= bound;
 
+                        _closed.erase(curr.m_index);
+
                         if (_open.size() > 1U) {
                             _open.pop_back();
                         }
                         stack.pop();
-                        _closed.erase(curr.m_index);
                     }
                 }
 
-- 
2.43.0


From b603b2ee9298d514abbccb755c7fdcb2a59c464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 07/42] fix: eidbest_first could pass through the start cell
 twice

From the second iteration on, the start was recorded with the raised bound
instead of its own score, so that it was searched again as a neighbour.
---
 include/solvers/eidbest_first.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/eidbest_first.hpp b/include/solvers/eidbest_first.hpp
index 9a40b7f..e524f83 100644
--- a/include/solvers/eidbest_first.hpp
+++ b/include/solvers/eidbest_first.hpp
@@ -141,7 +141,7 @@ namespace chdr::solvers {
             do {
 
                 stack.emplace(_open.back(), _params);
-                transposition_table[_open.back().m_index] = bound;
+                transposition_table[_open.back().m_index] = _open.back().m_hScore;
 
                 auto min = std::numeric_limits<scalar_t>::max();
 
-- 
2.43.0


From 6ebf36d55a0afd22f7ffafac2abfcd93a9fb0961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 08/42] fix: fringe lost nodes, never returned on some mazes
 and could return longer paths

A node whose neighbour lay above the threshold was dropped, together with its
remaining neighbours, as soon as any other node was generated; an exhausted
fringe was searched again for ever; and the first route to reach a cell won
even if a shorter one followed. Keep such nodes until the threshold admits
their neighbours, record the best known cost of each cell, raise the threshold
only once everything below it was searched, and stop when nothing is left.
---
 include/solvers/fringe.hpp | 68 +++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/include/solvers/fringe.hpp b/include/solvers/fringe.hpp
index ee0cb5c..1477a94 100644
--- a/include/solvers/fringe.hpp
+++ b/include/solvers/fringe.hpp
@@ -15,9 +15,9 @@
 
 #include <cstddef>
 #include <limits>
+#include <unordered_map>
 #include <vector>
 
-#include "../types/containers/existence_set.hpp"
 #include "../utils/utils.hpp"
 #include "base/solver.hpp"
 #include "base/unmanaged_node.hpp"
@@ -116,8 +116,10 @@ namespace chdr::solvers {
             }
         };
 
-        template <typename open_set_t, typename closed_set_t>
-        [[nodiscard]] HOT static constexpr auto solve_internal(open_set_t& _open, open_set_t& _next, closed_set_t& _closed, size_t _capacity, const params_t& _params) {
+        using cost_table_t = std::pmr::unordered_map<index_t, scalar_t>;
+
+        template <typename open_set_t>
+        [[nodiscard]] HOT static constexpr auto solve_internal(open_set_t& _open, open_set_t& _next, open_set_t& _later, cost_table_t& _costs, const params_t& _params) {
             constexpr bool do_reverse = !solver_t::solver_utils::template is_graph_v<decltype(_params.maze)> && params_t::reverse_equivalence::value;
 
             const auto&   end = do_reverse ? _params.start : _params.end;
@@ -126,21 +128,25 @@ namespace chdr::solvers {
             const auto s = utils::to_1d(start, _params.size);
             const auto e = utils::to_1d(end,   _params.size);
 
-            auto max_threshold = _params.h(start, end) * _params.weight;
+            auto  max_threshold = _params.h(start, end) * _params.weight;
+            auto next_threshold = std::numeric_limits<scalar_t>::max();
 
-              _open.emplace_back(s, static_cast<scalar_t>(0), max_threshold);
-            _closed.emplace(s);
+             _open.emplace_back(s, static_cast<scalar_t>(0), max_threshold);
+            _costs.emplace(s, static_cast<scalar_t>(0));
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
 
-                auto next_threshold = std::numeric_limits<scalar_t>::max();
-
                 for (auto& curr : _open) {
 
+                    if (curr.m_gScore > _costs.find(curr.m_index)->second) {
+                        continue; // A shorter route to this node was found in the meantime.
+                    }
+
                     if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
                         node* RESTRICT curr_ptr(nullptr);
+                        bool deferred = false;
 
                         for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
 
@@ -149,12 +155,12 @@ namespace chdr::solvers {
                                 const auto g = curr.m_gScore + n.distance;
                                 const auto f = g + (_params.h(n.coord, end) * _params.weight);
 
-                                if (f <= max_threshold) {
+                                // Check if node is not already visited by a route of the same or a lower cost:
+                                if (const auto search = _costs.find(n.index); search == _costs.end() || g < search->second) {
 
-                                    // Check if node is not already visited:
-                                    if (!_closed.contains(n.index)) {
+                                    if (f <= max_threshold) {
 
-                                        solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
+                                        _costs[n.index] = g;
 
                                         if (curr_ptr == nullptr) {
                                             curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
@@ -180,18 +186,24 @@ namespace chdr::solvers {
                                             );
                                         }
                                     }
-                                }
-                                else {
-                                    next_threshold = utils::min(next_threshold, f);
-                                    break;
+                                    else {
+                                        next_threshold = utils::min(next_threshold, f);
+                                        deferred = true;
+                                    }
                                 }
                             }
                         }
+
+                        // Retain the node until the threshold admits its remaining neighbours:
+                        if (deferred) {
+                            _later.emplace_back(curr.m_index, curr.m_gScore, curr.m_fScore, curr.m_parent);
+                        }
                     }
                     else { // SOLUTION REACHED...
 
-                        _next   = std::move(open_set_t());
-                        _closed = closed_set_t{};
+                        _next  = std::move(open_set_t());
+                        _later = std::move(open_set_t());
+                        _costs = {};
 
                         if constexpr (params_t::reverse_equivalence::value) {
                             return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
@@ -202,12 +214,15 @@ namespace chdr::solvers {
                     }
                 }
 
-                if (!_next.empty()) {
-                    std::swap(_open, _next);
-                    _next.clear();
-                }
+                std::swap(_open, _next);
+                _next.clear();
 
-                max_threshold = next_threshold;
+                // Raise the threshold once every node below it has been searched:
+                if (_open.empty()) {
+                    std::swap(_open, _later);
+                     max_threshold = next_threshold;
+                    next_threshold = std::numeric_limits<scalar_t>::max();
+                }
             }
 
             return std::vector<coord_t>{};
@@ -217,8 +232,7 @@ namespace chdr::solvers {
 
             const auto capacity = solver_t::solver_utils::determine_capacity(_params);
 
-            existence_set closed(_params.monotonic_pmr);
-            closed.reserve(capacity);
+            cost_table_t costs(_params.heterogeneous_pmr);
 
             std::pmr::vector<node> open(_params.heterogeneous_pmr);
             try {
@@ -232,7 +246,9 @@ namespace chdr::solvers {
             }
             catch (...) {} // NOLINT(*-empty-catch)
 
-            return solve_internal(open, next, closed, capacity, _params);
+            std::pmr::vector<node> later(_params.heterogeneous_pmr);
+
+            return solve_internal(open, next, later, costs, _params);
         }
     };
 
-- 
2.43.0


From 2a3c29ffab0244048ceaad847d36134cfd8ebde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 09/42] fix: heap erase missed the last element and could leave
 the heap out of order

---
 include/types/containers/heap.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index a715c37..d9f6e41 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -429,9 +429,9 @@ namespace chdr {
 
             assert(i < c.size() && "(Out of Bounds) Item does not exist in Heap.");
 
-            if (i < size()) {
+            if (i >= 1U && i <= size()) { // Offset for super element.
 
-                if (i == size() - 1U) {
+                if (i == size()) {
                     c.pop_back(); // If the item to remove is the last item, just remove it.
                 }
                 else {
@@ -441,7 +441,7 @@ namespace chdr {
                     // Restore heap property:
                     if (size() > 1U) {
 
-                        if (i > 1U && comp(c[i], c[i / Kd])) {
+                        if (i > 1U && comp(c[i / Kd], c[i])) {
                             sort_up(c[i]);
                         }
                         else {
@@ -872,7 +872,7 @@ namespace chdr {
                     c[distance_from_start] = std::move(c.back());
                     c.pop_back();
                     if (size_before > 1U) {
-                        if (distance_from_start > 1U && comp(c[distance_from_start], c[distance_from_start / Kd])) {
+                        if (distance_from_start > 1U && comp(c[distance_from_start / Kd], c[distance_from_start])) {
                             sort_up(c[distance_from_start]);
                         }
                         else {
-- 
2.43.0


From 72885d30f3fd8248cf470d8a5b86740c6cadef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 10/42] fix: heap with more than two children per node lost its
 order

---
 include/types/containers/heap.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index d9f6e41..f92218b 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -74,6 +74,12 @@ namespace chdr {
             return static_cast<size_t>(&(_item) - &(c[0U]));
         }
 
+        /** @brief Index of the parent of the element at index _i (_i > 1). */
+        [[nodiscard]] HOT static constexpr size_t parent_of(size_t _i) noexcept { return (_i - 2U) / Kd + 1U; }
+
+        /** @brief Index of the first child of the element at index _i (_i >= 1). */
+        [[nodiscard]] HOT static constexpr size_t child_of(size_t _i) noexcept { return (_i - 1U) * Kd + 2U; }
+
     public:
 
         /**
@@ -191,7 +197,7 @@ namespace chdr {
             );
 
             if (!empty()) {
-                for (size_t i = size() / Kd; i >= 1U; --i) {
+                for (size_t i = (size() + Kd - 2U) / Kd; i >= 1U; --i) {
                     sort_down(c[i]);
                 }
             }
@@ -216,7 +222,7 @@ namespace chdr {
             );
 
             if (!empty()) {
-                for (size_t i = size() / Kd; i >= 1U; --i) {
+                for (size_t i = (size() + Kd - 2U) / Kd; i >= 1U; --i) {
                     sort_down(c[i]);
                 }
             }
@@ -441,7 +447,7 @@ namespace chdr {
                     // Restore heap property:
                     if (size() > 1U) {
 
-                        if (i > 1U && comp(c[i / Kd], c[i])) {
+                        if (i > 1U && comp(c[parent_of(i)], c[i])) {
                             sort_up(c[i]);
                         }
                         else {
@@ -538,7 +544,7 @@ namespace chdr {
                 auto value_to_insert = std::move(c[i]);
 
                 while (i > 1U) {
-                    const auto p = i / Kd;
+                    const auto p = parent_of(i);
 
                     if (comp(c[p], value_to_insert)) {
                         c[i] = std::move(c[p]);
@@ -573,7 +579,7 @@ namespace chdr {
 
                 while (true) {
 
-                    const size_t c0 = i * Kd;         // First child index
+                    const size_t c0 = child_of(i);    // First child index
                     const size_t cn = c0 + (Kd - 1U); // Last child index in range
 
                     if (c0 < c.size()) {
@@ -757,7 +763,7 @@ namespace chdr {
                     }
 
                     // Iterate through child nodes based on the Kd dimension.
-                    const size_t child_start = i * Kd;
+                    const size_t child_start = child_of(i);
                     const size_t child_end   = std::min(child_start + Kd, c.size());
 
                     bool traversed = false;
@@ -802,7 +808,7 @@ namespace chdr {
                     }
 
                     // Iterate through child nodes based on the Kd dimension.
-                    const size_t child_start = i * Kd;
+                    const size_t child_start = child_of(i);
                     const size_t child_end   = std::min(child_start + Kd, c.size());
 
                     bool traversed = false;
@@ -872,7 +878,7 @@ namespace chdr {
                     c[distance_from_start] = std::move(c.back());
                     c.pop_back();
                     if (size_before > 1U) {
-                        if (distance_from_start > 1U && comp(c[distance_from_start / Kd], c[distance_from_start])) {
+                        if (distance_from_start > 1U && comp(c[parent_of(distance_from_start)], c[distance_from_start])) {
                             sort_up(c[distance_from_start]);
                         }
                         else {
-- 
2.43.0


From a7d995bfbfa7cee9266cac9e4b5d83f079b402d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 11/42] fix: heap back read past the last element

---
 include/types/containers/heap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index f92218b..f30a355 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -311,7 +311,7 @@ namespace chdr {
                 return reinterpret_cast<T&>(end().base());
             }
             else {
-                return *end();
+                return *(end() - 1U);
             }
         }
 
@@ -328,7 +328,7 @@ namespace chdr {
                 return reinterpret_cast<T&>(end().base());
             }
             else {
-                return *end();
+                return *(end() - 1U);
             }
         }
 
-- 
2.43.0


From bf70adc78adf6b7e93f1867c67915e3b52c4884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 12/42] fix: heap dequeue formed a reference past the end when
 removing the last element

---
 include/types/containers/heap.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index f30a355..717ee18 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -481,7 +481,9 @@ namespace chdr {
             }
             c.pop_back();
 
-            sort_down(c[1U]);
+            if (size() > 1U) {
+                sort_down(c[1U]);
+            }
 
             return result;
         }
-- 
2.43.0


From af40b63af1c563981314405ea63333507d857871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 13/42] fix: queue and stack push did not compile

---
 include/types/containers/queue.hpp | 4 ++--
 include/types/containers/stack.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/queue.hpp b/include/types/containers/queue.hpp
index fbfac29..61ead62 100644
--- a/include/types/containers/queue.hpp
+++ b/include/types/containers/queue.hpp
@@ -203,13 +203,13 @@ namespace chdr {
          * @brief Adds an element to the queue.
          * @param [in] _value  A constant reference to the value to add to the queue.
          */
-        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push(_value); }
+        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push_back(_value); }
 
         /**
          * @brief Adds an element to the queue, using move semantics.
          * @param [in] _value  A constant reference to the value to add to the queue.
          */
-        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push(std::move(_value)); }
+        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push_back(std::move(_value)); }
 
         /**
          * @brief Constructs an element in place, adding it to the queue.
diff --git a/include/types/containers/stack.hpp b/include/types/containers/stack.hpp
index 6db33cb..e4df76e 100644
--- a/include/types/containers/stack.hpp
+++ b/include/types/containers/stack.hpp
@@ -213,13 +213,13 @@ namespace chdr {
          * @brief Adds an element to the stack.
          * @param [in] _value  A constant reference to the value to add to the stack.
          */
-        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push(_value); }
+        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push_back(_value); }
 
         /**
          * @brief Adds an element to the stack, using move semantics.
          * @param [in] _value  A constant reference to the value to add to the stack.
          */
-        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push(std::move(_value)); }
+        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push_back(std::move(_value)); }
 
         /**
          * @brief Constructs an element in place, adding it to the stack.
-- 
2.43.0


From cc73cc4495a825fcb7adf390c9f67344c39f4bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 14/42] fix: powui asserted on results that fit and divided by
 zero for base zero

---
 include/utils/utils.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index cab6c37..83a5c4f 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -385,12 +385,14 @@ namespace chdr {
 
             while (_exp > 0U) {
                 if (_exp % 2U == 1U) {
-                    assert(result <= std::numeric_limits<T>::max() / _base && "Multiplication would cause overflow.");
+                    assert((_base == 0U || result <= std::numeric_limits<T>::max() / _base) && "Multiplication would cause overflow.");
                     result *= _base;
                 }
-                assert(_base <= std::numeric_limits<T>::max() / _base && "Multiplication would cause overflow.");
-                _base *= _base;
-                _exp  /= 2U;
+                _exp /= 2U;
+                if (_exp > 0U) {
+                    assert((_base == 0U || _base <= std::numeric_limits<T>::max() / _base) && "Multiplication would cause overflow.");
+                    _base *= _base;
+                }
             }
 
             return result;
-- 
2.43.0


From 69d6f3be91a963647d9fbb6c6c24c2d923a54724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 15/42] fix: to_string read past its list of units for tiny
 durations

---
 include/utils/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 83a5c4f..3996c21 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -566,7 +566,7 @@ namespace chdr {
             constexpr std::array<const char* const, 4U> units { "s", "ms", "µs", "ns" };
 
             size_t i = 0U;
-            while (i < units.size() && abs(_duration) < 1.0L) {
+            while (i + 1U < units.size() && abs(_duration) < 1.0L) {
                 _duration *= 1000.0L;
                 ++i;
             }
-- 
2.43.0


From 939930bca4e03d3ac83ff5367354c87a1a3f6154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 16/42] fix: pools handed out misaligned or overrunning memory
 from their stack block

---
 include/types/pmr/heterogeneous_pool.hpp | 16 +++++++++++++---
 include/types/pmr/homogeneous_pool.hpp   | 13 ++++++++-----
 include/types/pmr/monotonic_pool.hpp     | 15 ++++++++-------
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 94b075b..6d1db28 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -18,6 +18,7 @@
 #include <cstdint>
 #include <limits>
 #include <map>
+#include <memory>
 #include <new>
 #include <utility>
 #include <vector>
@@ -254,13 +255,22 @@ namespace chdr {
             else {
                 const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
 
+                if (UNLIKELY(aligned_bytes < _bytes)) {
+                    throw std::bad_alloc(); // Size is not representable.
+                }
+
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-                if (aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size) {
+                if (aligned_bytes < MaxStackAllocationSize) {
 
-                    aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
-                    m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
+                    auto*  raw_ptr = static_cast<void*>(m_stack_block + m_stack_write);
+                    size_t space   = s_stack_block_size - m_stack_write;
+
+                    aligned_ptr = static_cast<uint8_t*>(std::align(_alignment, aligned_bytes, raw_ptr, space));
+                    if (aligned_ptr != nullptr) {
+                        m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
+                    }
                 }
 
                 if (aligned_ptr == nullptr) {
diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index bbe3c76..6e2fbba 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -18,6 +18,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <limits>
+#include <memory>
 #include <new>
 #include <utility>
 #include <vector>
@@ -224,12 +225,14 @@ namespace chdr {
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-                if (m_stack_write < StackSize) {
+                if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
+                    aligned_bytes >= _bytes && aligned_bytes < MaxStackAllocationSize
+                ) {
+                    auto*  raw_ptr = static_cast<void*>(m_stack_block + m_stack_write);
+                    size_t space   = s_stack_block_size - m_stack_write;
 
-                    if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
-                        aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size
-                    ) {
-                        aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
+                    aligned_ptr = static_cast<uint8_t*>(std::align(_alignment, aligned_bytes, raw_ptr, space));
+                    if (aligned_ptr != nullptr) {
                         m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
                     }
                 }
diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index 5bc8286..b9df80b 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -205,13 +205,14 @@ namespace chdr {
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-                if (m_stack_write < StackSize) {
-
-                    if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
-                        aligned_bytes < MaxStackAllocationSize &&
-                        m_stack_write + aligned_bytes <= s_stack_block_size
-                    ) {
-                        aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
+                if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
+                    aligned_bytes >= _bytes && aligned_bytes < MaxStackAllocationSize
+                ) {
+                    auto*  raw_ptr = static_cast<void*>(m_stack_block + m_stack_write);
+                    size_t space   = s_stack_block_size - m_stack_write;
+
+                    aligned_ptr = static_cast<uint8_t*>(std::align(_alignment, aligned_bytes, raw_ptr, space));
+                    if (aligned_ptr != nullptr) {
                         m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
                     }
                 }
-- 
2.43.0


From d19a4a40b89084cb00d96a1e053682d0ca3d060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:20 +0000
Subject: [PATCH 17/42] fix: heterogeneous_pool reused free blocks without
 regard to alignment and overran them

---
 include/types/pmr/heterogeneous_pool.hpp | 40 ++++++++++++++----------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 6d1db28..ade2763 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -138,7 +138,7 @@ namespace chdr {
                     bool success = false;
                     for (size_t i = 0U; i < remaining_size; ++i) {
 
-                        if (m_free.try_emplace(remaining_size - i, remaining_size, _alignment, result + utils::max(_bytes, _alignment)).second) {
+                        if (m_free.try_emplace(remaining_size - i, remaining_size, _alignment, result + _bytes).second) {
                             success = true;
                             break;
                         }
@@ -167,32 +167,38 @@ namespace chdr {
             return result;
         }
 
-        HOT uint8_t* allocate_from_free(size_t _bytes) {
+        HOT uint8_t* allocate_from_free(size_t _bytes, size_t _alignment) {
 
             assert(_bytes > 0U && "Allocation size must be greater than zero.");
 
             uint8_t* result = nullptr;
 
             // Find the smallest free block that fits:
-            auto it = m_free.lower_bound(_bytes);
+            for (auto it = m_free.lower_bound(_bytes); it != m_free.end(); ++it) {
 
-            if (it != m_free.end() && it->second.size >= _bytes) {
+                auto*  raw_ptr = static_cast<void*>(it->second.data);
+                size_t space   = it->second.size;
 
-                // Extract the matching block without performing a full tree rebalance:
-                typename std::map<size_t, block>::node_type node = m_free.extract(it);
+                if (std::align(_alignment, _bytes, raw_ptr, space) != nullptr) {
 
-                result = node.mapped().data;
+                    // Extract the matching block without performing a full tree rebalance:
+                    typename std::map<size_t, block>::node_type node = m_free.extract(it);
 
-                // Consume block or adjust the remaining size:
-                size_t remaining_size = node.mapped().size - _bytes;
-                if (remaining_size != 0U) {
+                    result = static_cast<uint8_t*>(raw_ptr);
 
-                    // Update with adjusted size:
-                    node.key() = remaining_size;
-                    node.mapped().size = remaining_size;
-                    node.mapped().data += utils::max(_bytes, node.mapped().alignment);
+                    // Consume block or adjust the remaining size:
+                    size_t remaining_size = space - _bytes;
+                    if (remaining_size != 0U) {
 
-                    m_free.insert(std::move(node)); // Reinsert (node is consumed otherwise).
+                        // Update with adjusted size:
+                        node.key() = remaining_size;
+                        node.mapped().size = remaining_size;
+                        node.mapped().data = result + _bytes;
+
+                        m_free.insert(std::move(node)); // Reinsert (node is consumed otherwise).
+                    }
+
+                    break;
                 }
             }
 
@@ -276,9 +282,9 @@ namespace chdr {
                 if (aligned_ptr == nullptr) {
 
                     // Attempt to find a free block, or create one otherwise:
-                    aligned_ptr = allocate_from_free(aligned_bytes);
+                    aligned_ptr = allocate_from_free(aligned_bytes, _alignment);
                     if (UNLIKELY(aligned_ptr == nullptr)) {
-                        aligned_ptr = expand(_bytes, _alignment);
+                        aligned_ptr = expand(aligned_bytes, _alignment);
                     }
                 }
 
-- 
2.43.0


From 459ba1f09f92d5db394f22627f72f532bbc847e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 18/42] fix: pools dropped a live block when recording a new
 one ran out of memory

---
 include/types/pmr/heterogeneous_pool.hpp | 5 +++--
 include/types/pmr/homogeneous_pool.hpp   | 5 +++--
 include/types/pmr/monotonic_pool.hpp     | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index ade2763..0f57288 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -158,10 +158,11 @@ namespace chdr {
                 // ReSharper disable once CppDFAConstantConditions
                 if (result != nullptr) {
                     // ReSharper disable once CppDFAUnreachableCode
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
-
-                    m_blocks.pop_back();
                 }
             }
             return result;
diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 6e2fbba..ebf8641 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -149,10 +149,11 @@ namespace chdr {
                 // ReSharper disable once CppDFAConstantConditions
                 if (result != nullptr) {
                     // ReSharper disable once CppDFAUnreachableCode
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
-
-                    m_blocks.pop_back();
                 }
             }
 
diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index b9df80b..0e8ce8f 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -140,10 +140,11 @@ namespace chdr {
                 // ReSharper disable once CppDFAConstantConditions
                 if (result != nullptr) {
                     // ReSharper disable once CppDFAUnreachableCode
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
-
-                    m_blocks.pop_back();
                 }
             }
 
-- 
2.43.0


From 17f0f5e50a3d4150c1b22b2c2c69d54b0090d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 19/42] fix: monotonic_pool corrupted its write position when
 an allocation failed

---
 include/types/pmr/monotonic_pool.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index 0e8ce8f..d70b30d 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -115,19 +115,20 @@ namespace chdr {
                 }
                 else { // Allocate a new, larger block:
 
-                    m_block_width = utils::max(
+                    const auto allocate_size = utils::max(
                         m_initial_block_width,
                         utils::max(utils::min((m_block_width * 3U) / 2U, s_max_heap_block_size), _bytes)
                     );
 
-                    result = static_cast<uint8_t*>(operator new(m_block_width, static_cast<std::align_val_t>(_alignment)));
+                    result = static_cast<uint8_t*>(operator new(allocate_size, static_cast<std::align_val_t>(_alignment)));
 
                     m_blocks.emplace_back(
-                        m_block_width,
+                        allocate_size,
                         _alignment,
                         result
                     );
 
+                    m_block_width        = allocate_size;
                     m_active_block_index = m_blocks.size() - 1U;
                 }
 
@@ -240,16 +241,14 @@ namespace chdr {
                         aligned_ptr = expand(_bytes, _alignment);
                     }
 
+                    if (UNLIKELY(aligned_ptr == nullptr)) {
+                        throw std::bad_alloc();
+                    }
+
                     // Update write position.
                     m_block_write += static_cast<size_t>(aligned_ptr + _bytes - (m_blocks[m_active_block_index].data + m_block_write));
                 }
 
-                // ReSharper disable once CppDFAConstantConditions
-                if (UNLIKELY(aligned_ptr == nullptr)) {
-                    // ReSharper disable once CppDFAUnreachableCode
-                    throw std::bad_alloc();
-                }
-
                 PREFETCH(aligned_ptr, 1, 1);
 
 #if CHDR_DIAGNOSTICS == 1
-- 
2.43.0


From 44950884f36b3084cd02445683813539540931a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 20/42] fix: homogeneous_pool reset produced misaligned chunks

---
 include/types/pmr/homogeneous_pool.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index ebf8641..5ab7f58 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -455,14 +455,15 @@ namespace chdr {
                 for (auto& [size, data] : m_blocks) {
 
                     // Divide the block into chunks; all chunks are guaranteed aligned.
-                    const auto chunk_size = size / m_block_width;
+                    const auto chunk_width = (m_block_width + m_alignment - 1U) & ~(m_alignment - 1U);
+                    const auto chunk_size = size / chunk_width;
 
                     const auto current_size = m_free.size();
                     m_free.resize(current_size + chunk_size);
 
                     IVDEP
                     for (size_t j = 0U; j < chunk_size; ++j) {
-                        m_free[j + current_size] = data + j * m_block_width;
+                        m_free[j + current_size] = data + j * chunk_width;
                     }
                 }
             }
-- 
2.43.0


From 9a623fba876bade870341c306a12f38e725c18a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 21/42] fix: pools leaked their blocks when reset ran out of
 memory

---
 include/types/pmr/heterogeneous_pool.hpp | 3 +--
 include/types/pmr/homogeneous_pool.hpp   | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 0f57288..5df239b 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -510,8 +510,7 @@ namespace chdr {
                 }
             }
             catch (...) {
-                  m_free.clear();
-                m_blocks.clear();
+                m_free.clear(); // Blocks remain owned by the pool until released.
             }
 
 #if CHDR_DIAGNOSTICS == 1
diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 5ab7f58..bc5cb95 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -468,8 +468,7 @@ namespace chdr {
                 }
             }
             catch (...) {
-                m_blocks.clear();
-                  m_free.clear();
+                m_free.clear(); // Blocks remain owned by the pool until released.
             }
 
 #if CHDR_DIAGNOSTICS == 1
-- 
2.43.0


From 1c584a156aaaf80e8e5d2b82279fbb3eabdd14ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 22/42] fix: grid contains did not compile for coordinates

---
 include/mazes/grid.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/mazes/grid.hpp b/include/mazes/grid.hpp
index 7eba226..7e0d7c2 100644
--- a/include/mazes/grid.hpp
+++ b/include/mazes/grid.hpp
@@ -298,7 +298,12 @@ namespace chdr::mazes {
          * @return `true` if the provided coordinate lies within the bounds of the grid. Otherwise, `false`.
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
-            return std::all_of(0U, s_rank, [&](size_t _i) noexcept { return _id[_i] < m_size[_i]; });
+            for (size_t i = 0U; i < s_rank; ++i) {
+                if (_id[i] >= m_size[i]) {
+                    return false;
+                }
+            }
+            return true;
         }
 
         /**
@@ -759,7 +764,12 @@ namespace chdr::mazes {
          * @return `true` if the provided coordinate lies within the bounds of the grid. Otherwise, `false`.
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
-            return std::all_of(0U, s_rank, [&](size_t _i) noexcept { return _id[_i] < m_size[_i]; });
+            for (size_t i = 0U; i < s_rank; ++i) {
+                if (_id[i] >= m_size[i]) {
+                    return false;
+                }
+            }
+            return true;
         }
 
         /**
-- 
2.43.0


From 13ef4dd3867e8504cbae6154ea321ad03e17582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 23/42] fix: trim_trailing_zeros removed zeros of whole numbers

---
 include/utils/utils.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 3996c21..7a0e587 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -596,13 +596,15 @@ namespace chdr {
          */
         [[nodiscard]] static std::string trim_trailing_zeros(std::string _str) {
 
-            auto& trimmed = _str.erase(_str.find_last_not_of('0') + 1U, std::string::npos);
+            if (_str.find('.') != std::string::npos) {
+                _str.erase(_str.find_last_not_of('0') + 1U, std::string::npos);
 
-            if (trimmed.back() == '.') {
-                trimmed.pop_back();
+                if (_str.back() == '.') {
+                    _str.pop_back();
+                }
             }
 
-            return trimmed;
+            return _str;
         }
     };
 
-- 
2.43.0


From 482c350b3db70fd5f5028a535f21e29ffd343971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 24/42] fix: octile_distance looked at the first dimension only

---
 include/utils/heuristics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/heuristics.hpp b/include/utils/heuristics.hpp
index 9798c0c..a26cf11 100644
--- a/include/utils/heuristics.hpp
+++ b/include/utils/heuristics.hpp
@@ -102,7 +102,7 @@ namespace chdr {
             bool straight = false;
             for (size_t i = 0U; i < Kd; ++i) {
 
-                if (_a[0] == _b[0]) {
+                if (_a[i] == _b[i]) {
                     straight = true;
 
                     if constexpr (Kd > 4U) { break; }
-- 
2.43.0


From af168ab06bf74f427c287775517db51e92287559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:31 +0000
Subject: [PATCH 25/42] fix: graph prune left edges to removed nodes and lost
 nodes between parallel edges

---
 include/mazes/graph.hpp | 49 ++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index a9f83a0..b1ad3bf 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -374,8 +374,6 @@ namespace chdr::mazes {
 
                         if (auto& [node, neighbours] = entry; neighbours.size() == 2U) {
 
-                            dirty = ConsolidateAfterPrune;
-
                             auto it = neighbours.begin();
 
                             auto& [n1_id, n1_cost] = *it;
@@ -384,37 +382,38 @@ namespace chdr::mazes {
                             auto s1 = m_entries.find(n1_id);
                             auto s2 = m_entries.find(n2_id);
 
-                            // Merge the connections from the current node with its neighbours:
+                            // Only a node between two distinct others can be replaced by a direct connection:
+                            if (s1 != m_entries.end() && n1_id != node &&
+                                s2 != m_entries.end() && n2_id != node && n1_id != n2_id
+                            ) {
+                                auto& set1 = s1->second;
+                                auto& set2 = s2->second;
 
-                            if (s1 != m_entries.end() && n1_id != n2_id) {
-                                auto& set = s1->second;
-                                auto  sn  = std::find(set.begin(), set.end(), std::make_pair(node, n1_cost));
+                                auto sn1 = std::find(set1.begin(), set1.end(), std::make_pair(node, n1_cost));
+                                auto sn2 = std::find(set2.begin(), set2.end(), std::make_pair(node, n2_cost));
 
-                                if (sn != set.end()) {
+                                if (sn1 != set1.end() && sn2 != set2.end()) {
 
-                                    if (neighbour_t new_vertex { n2_id, sn->second + n2_cost };
-                                        std::find(set.begin(), set.end(), new_vertex) == set.end()
-                                    ) {
-                                        set.emplace_back(new_vertex);
-                                    }
-                                }
-                            }
+                                    dirty = ConsolidateAfterPrune;
 
-                            if (s2 != m_entries.end() && n1_id != n2_id) {
-                                auto& set = s2->second;
-                                auto  sn  = std::find(set.begin(), set.end(), std::make_pair(node, n2_cost));
+                                    // Merge the connections from the current node with its neighbours:
+                                    const neighbour_t new_vertex1 { n2_id, sn1->second + n2_cost };
+                                    const neighbour_t new_vertex2 { n1_id, sn2->second + n1_cost };
 
-                                if (sn != set.end()) {
-                                    neighbour_t new_vertex{n1_id, sn->second + n1_cost};
-                                    set.erase(sn);
-                                    if (std::find(set.begin(), set.end(), new_vertex) == set.end()) {
-                                        set.emplace_back(new_vertex);
+                                    set1.erase(sn1);
+                                    if (std::find(set1.begin(), set1.end(), new_vertex1) == set1.end()) {
+                                        set1.emplace_back(new_vertex1);
                                     }
+
+                                    set2.erase(sn2);
+                                    if (std::find(set2.begin(), set2.end(), new_vertex2) == set2.end()) {
+                                        set2.emplace_back(new_vertex2);
+                                    }
+
+                                    // Remove the current node from the graph.
+                                    nodesToRemove.emplace_back(node);
                                 }
                             }
-
-                            // Remove the current node from the graph.
-                            nodesToRemove.emplace_back(node);
                         }
                     }
                     else {
-- 
2.43.0


From 6ddb50f5eb3f1fa8b975cb77f8b5cb8b31f6f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:31 +0000
Subject: [PATCH 26/42] fix: solve accepted coordinates outside the grid as
 aliases of other cells

---
 include/solvers/base/solver.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 923cbb3..9d53fc4 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -886,7 +886,15 @@ namespace chdr::solvers {
                 const auto s = static_cast<typename params_t::index_type>(utils::to_1d(_params.start, _params.size));
                 const auto e = static_cast<typename params_t::index_type>(utils::to_1d(_params.end,   _params.size));
 
-                if (_params.maze.contains(s) && _params.maze[s].is_active() &&
+                bool in_bounds = true;
+                if constexpr (!solver_utils::template is_graph_v<decltype(_params.maze)>) {
+                    for (size_t i = 0U; i < std::tuple_size_v<typename params_t::coord_type>; ++i) {
+                        in_bounds = in_bounds && _params.start[i] < _params.size[i] && _params.end[i] < _params.size[i];
+                    }
+                }
+
+                if (in_bounds &&
+                    _params.maze.contains(s) && _params.maze[s].is_active() &&
                     _params.maze.contains(e) && _params.maze[e].is_active()
                 ) {
                     result = s != e ?
-- 
2.43.0


From 60975922470d71d54b261b8324b23f7331ff481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 27/42] fix: dijkstra with lazy sorting ignored a cheaper route
 to a node it had already taken

---
 include/solvers/dijkstra.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/solvers/dijkstra.hpp b/include/solvers/dijkstra.hpp
index a6e9610..762737e 100644
--- a/include/solvers/dijkstra.hpp
+++ b/include/solvers/dijkstra.hpp
@@ -172,7 +172,14 @@ namespace chdr::solvers {
                 auto _ = std::move(_open.top());
                 _open.pop();
 
-                auto& curr = result.m_data.emplace(_.m_index, std::move(_)).first->second;
+                const auto [entry, inserted] = result.m_data.emplace(_.m_index, _);
+                auto& curr = entry->second;
+
+                // Without sorting, a cheaper route may surface after a more expensive one:
+                if (!inserted && _.m_gScore < curr.m_gScore) {
+                    curr.m_gScore = _.m_gScore;
+                    curr.m_parent = _.m_parent;
+                }
 
                 for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
 
-- 
2.43.0


From 5d28edbb8c947265f39a6ea0e3d54fae36c2d2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 28/42] fix: existence_set iterators did not compile

---
 include/types/containers/existence_set.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/existence_set.hpp b/include/types/containers/existence_set.hpp
index eb4d009..4b5ccc7 100644
--- a/include/types/containers/existence_set.hpp
+++ b/include/types/containers/existence_set.hpp
@@ -410,10 +410,10 @@ namespace chdr {
          */
         [[maybe_unused, nodiscard]] constexpr auto capacity() const noexcept { return c.capacity(); }
 
-        using iterator_t               = typename std::vector<width_t>::              iterator;
-        using const_iterator_t         = typename std::vector<width_t>::        const_iterator;
-        using reverse_iterator_t       = typename std::vector<width_t>::      reverse_iterator;
-        using const_reverse_iterator_t = typename std::vector<width_t>::const_reverse_iterator;
+        using iterator_t               = typename std::pmr::vector<width_t>::              iterator;
+        using const_iterator_t         = typename std::pmr::vector<width_t>::        const_iterator;
+        using reverse_iterator_t       = typename std::pmr::vector<width_t>::      reverse_iterator;
+        using const_reverse_iterator_t = typename std::pmr::vector<width_t>::const_reverse_iterator;
 
         [[maybe_unused, nodiscard]] constexpr       iterator_t  begin()       noexcept { return c.begin();  }
         [[maybe_unused, nodiscard]] constexpr const_iterator_t  begin() const noexcept { return c.begin();  }
-- 
2.43.0


From f508a428a8a8bffc83f13769f36ac35350a5ec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 29/42] fix: a moved homogeneous_pool handed out memory inside
 the pool it was moved from

---
 include/types/pmr/homogeneous_pool.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index bc5cb95..1e14e68 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -17,6 +17,7 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
+#include <functional>
 #include <limits>
 #include <memory>
 #include <new>
@@ -395,6 +396,14 @@ namespace chdr {
             m_blocks             (std::move(_other.m_blocks)  ),
             m_free               (std::move(_other.m_free  )  )
         {
+            // Free chunks of the other pool's stack block stay behind with it:
+            m_free.erase(
+                std::remove_if(m_free.begin(), m_free.end(), [&](const uint8_t* _chunk) {
+                    return !std::less<>()(_chunk, _other.m_stack_block + 0U) && std::less<>()(_chunk, _other.m_stack_block + s_stack_block_size);
+                }),
+                m_free.end()
+            );
+
             _other.m_stack_write = 0U;
             _other.m_blocks.clear();
             _other.m_free.clear();
@@ -416,6 +425,14 @@ namespace chdr {
                 m_blocks              = std::move(_other.m_blocks);
                 m_free                = std::move(_other.m_free  );
 
+                // Free chunks of the other pool's stack block stay behind with it:
+                m_free.erase(
+                    std::remove_if(m_free.begin(), m_free.end(), [&](const uint8_t* _chunk) {
+                        return !std::less<>()(_chunk, _other.m_stack_block + 0U) && std::less<>()(_chunk, _other.m_stack_block + s_stack_block_size);
+                    }),
+                    m_free.end()
+                );
+
                 _other.m_stack_write = 0U;
                 _other.m_blocks.clear();
                 _other.m_free.clear();
-- 
2.43.0


From cad0380fbd47c6fd31fe4c8a7c91c9c8aec1aa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 30/42] fix: dijkstra followed directed edges backwards

---
 include/solvers/dijkstra.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/solvers/dijkstra.hpp b/include/solvers/dijkstra.hpp
index 762737e..0f04e17 100644
--- a/include/solvers/dijkstra.hpp
+++ b/include/solvers/dijkstra.hpp
@@ -13,6 +13,7 @@
  * @file dijkstra.hpp
  */
 
+#include <algorithm>
 #include <iostream>
 #include <vector>
 
@@ -160,9 +161,12 @@ namespace chdr::solvers {
         template <typename open_set_t>
         [[nodiscard]] HOT static constexpr auto solve_internal(open_set_t& _open, const params_t& _params) {
 
-            const auto e = utils::to_1d(_params.end, _params.size);
+            // Searching from the end is only possible where every connection can be followed both ways:
+            constexpr bool do_reverse = !solver_t::solver_utils::template is_graph_v<decltype(_params.maze)> && params_t::reverse_equivalence::value;
 
-            _open.emplace_nosort(e, static_cast<scalar_t>(0));
+            const auto s = utils::to_1d(do_reverse ? _params.end : _params.start, _params.size);
+
+            _open.emplace_nosort(s, static_cast<scalar_t>(0));
 
             multi_result result(_params.size, _params.capacity);
 
@@ -215,7 +219,14 @@ namespace chdr::solvers {
             }
 
             // TODO: return multi_result instead of std::vector<coord_t>.
-            return result.get(_params.start);
+            if constexpr (do_reverse) {
+                return result.get(_params.start);
+            }
+            else {
+                auto path = result.get(_params.end);
+                std::reverse(path.begin(), path.end());
+                return path;
+            }
         }
 
         [[maybe_unused, nodiscard]] static auto invoke(const params_t& _params) {
-- 
2.43.0


From a0c6fc9fe1533b31ed58c54b31a8879adbafbae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 31/42] fix: nodes with more than 255 successors were released
 while still in use

---
 include/solvers/base/managed_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/base/managed_node.hpp b/include/solvers/base/managed_node.hpp
index a1ccda5..7c48747 100644
--- a/include/solvers/base/managed_node.hpp
+++ b/include/solvers/base/managed_node.hpp
@@ -48,7 +48,7 @@ namespace chdr::solvers {
     private:
 
         using  node_t = std::conditional_t<std::is_void_v<derived>, managed_node<index_t>, derived>;
-        using count_t = uint8_t;
+        using count_t = uint32_t;
 
     public:
 
-- 
2.43.0


From abb6bbf3c751832432236f13e5ad36988e64bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 32/42] fix: A* and G* close nodes when searched, not when
 found, on graphs and octile grids

---
 include/solvers/astar.hpp | 20 ++++++++++++++++++--
 include/solvers/gstar.hpp | 21 +++++++++++++++++++--
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/include/solvers/astar.hpp b/include/solvers/astar.hpp
index 7c113bd..15c9a43 100644
--- a/include/solvers/astar.hpp
+++ b/include/solvers/astar.hpp
@@ -121,6 +121,9 @@ namespace chdr::solvers {
 
             constexpr bool do_reverse = !solver_t::solver_utils::template is_graph_v<decltype(_params.maze)> && params_t::reverse_equivalence::value;
 
+            // A node may be reached by a costlier route first, unless all neighbours are one step along an axis away:
+            constexpr bool late_closing = solver_t::solver_utils::template is_graph_v<decltype(_params.maze)> || params_t::octile_neighbours::value;
+
             const auto&   end = do_reverse ? _params.start : _params.end;
             const auto& start = do_reverse ? _params.end   : _params.start;
 
@@ -128,7 +131,10 @@ namespace chdr::solvers {
             const auto e = utils::to_1d(_params.end,   _params.size);
 
               _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-            _closed.emplace(s);
+
+            if constexpr (!late_closing) {
+                _closed.emplace(s);
+            }
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
@@ -136,6 +142,13 @@ namespace chdr::solvers {
                 auto curr(std::move(_open.top()));
                 _open.pop();
 
+                if constexpr (late_closing) {
+                    if (_closed.contains(curr.m_index)) { // A route of lower cost was searched before.
+                        continue;
+                    }
+                    solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+                }
+
                 if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
                     node* RESTRICT curr_ptr(nullptr);
@@ -146,7 +159,10 @@ namespace chdr::solvers {
 
                             // Check if node is not already visited:
                             if (!_closed.contains(n.index)) {
-                                solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
+
+                                if constexpr (!late_closing) {
+                                    solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
+                                }
 
                                 if (curr_ptr == nullptr) {
                                     curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
diff --git a/include/solvers/gstar.hpp b/include/solvers/gstar.hpp
index cbdc538..a2fbb6b 100644
--- a/include/solvers/gstar.hpp
+++ b/include/solvers/gstar.hpp
@@ -119,6 +119,9 @@ namespace chdr::solvers {
         [[maybe_unused, nodiscard]] HOT static constexpr auto solve_internal(open_set_t& _open, closed_set_t& _closed, size_t _capacity, const params_t& _params) {
             constexpr bool do_reverse = !solver_t::solver_utils::template is_graph_v<decltype(_params.maze)> && params_t::reverse_equivalence::value;
 
+            // A node may be reached by a costlier route first, unless all neighbours are one step along an axis away:
+            constexpr bool late_closing = solver_t::solver_utils::template is_graph_v<decltype(_params.maze)> || params_t::octile_neighbours::value;
+
             const auto&   end = do_reverse ? _params.start : _params.end;
             const auto& start = do_reverse ? _params.end   : _params.start;
 
@@ -126,7 +129,10 @@ namespace chdr::solvers {
             const auto e = utils::to_1d(end,   _params.size);
 
               _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-            _closed.emplace(s);
+
+            if constexpr (!late_closing) {
+                _closed.emplace(s);
+            }
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
@@ -134,6 +140,14 @@ namespace chdr::solvers {
                 auto curr(std::move(_open.top()));
                 _open.pop();
 
+                if constexpr (late_closing) {
+                    if (_closed.contains(curr.m_index)) { // A route of lower cost was searched before.
+                        curr.expunge(_params.homogeneous_pmr);
+                        continue;
+                    }
+                    solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+                }
+
                 if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
                     node* RESTRICT curr_ptr(nullptr);
@@ -144,7 +158,10 @@ namespace chdr::solvers {
 
                             // Check if node is not already visited:
                             if (!_closed.contains(n.index)) {
-                                solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
+
+                                if constexpr (!late_closing) {
+                                    solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
+                                }
 
                                 if (curr_ptr == nullptr) {
                                     curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
-- 
2.43.0


From 75c46a749c216db686cec1ca3059dddf5c5b0416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 33/42] fix: JPS and GJPS close jump points when searched, not
 when found

---
 include/solvers/gjps.hpp | 9 ++++++---
 include/solvers/jps.hpp  | 8 +++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index c9cceee..4bca33d 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -316,7 +316,6 @@ namespace chdr::solvers {
                 const auto e = utils::to_1d(end,   _params.size);
 
                   _open.emplace_nosort(s, ZZ, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-                _closed.emplace(s);
 
                 // Main loop:
                 while (LIKELY(!_open.empty())) {
@@ -324,6 +323,12 @@ namespace chdr::solvers {
                     auto curr(std::move(_open.top()));
                     _open.pop();
 
+                    if (_closed.contains(curr.m_index)) { // A route of lower cost was searched before.
+                        curr.expunge(_params.homogeneous_pmr);
+                        continue;
+                    }
+                    solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                     if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
                         node* RESTRICT curr_ptr(nullptr);
@@ -339,8 +344,6 @@ namespace chdr::solvers {
                                 const scalar_t nDistance = heuristics::octile_distance<scalar_t>(coord, nCoord);
 
                                 if (!_closed.contains(n)) {
-                                    solver_t::solver_utils::preallocate_emplace(_closed, n, _capacity, _params.maze.count());
-
                                     if (curr_ptr == nullptr) {
                                         curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
                                     }
diff --git a/include/solvers/jps.hpp b/include/solvers/jps.hpp
index ec4f83a..289666e 100644
--- a/include/solvers/jps.hpp
+++ b/include/solvers/jps.hpp
@@ -336,7 +336,6 @@ namespace chdr::solvers {
                 const auto e = utils::to_1d(end,   _params.size);
 
                   _open.emplace_nosort(s, ZZ, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-                _closed.emplace(s);
 
                 // Main loop:
                 while (LIKELY(!_open.empty())) {
@@ -344,6 +343,11 @@ namespace chdr::solvers {
                     auto curr(std::move(_open.top()));
                     _open.pop();
 
+                    if (_closed.contains(curr.m_index)) { // A route of lower cost was searched before.
+                        continue;
+                    }
+                    solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                     if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
                         node* RESTRICT curr_ptr(nullptr);
@@ -359,8 +363,6 @@ namespace chdr::solvers {
                                 const scalar_t nDistance = heuristics::octile_distance<scalar_t>(coord, nCoord);
 
                                 if (!_closed.contains(n)) {
-                                    solver_t::solver_utils::preallocate_emplace(_closed, n, _capacity, _params.maze.count());
-
                                     if (curr_ptr == nullptr) {
                                         curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
                                     }
-- 
2.43.0


From 47be834574236757881797573c440bff4141548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 34/42] fix: IDA* accepted a goal beyond the current bound

---
 include/solvers/idastar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/idastar.hpp b/include/solvers/idastar.hpp
index 9432266..5db6286 100644
--- a/include/solvers/idastar.hpp
+++ b/include/solvers/idastar.hpp
@@ -167,7 +167,7 @@ namespace chdr::solvers {
 
                                     _open.emplace_back(n.index, g, f);
 
-                                    if (n.index != e) { // SEARCH FOR SOLUTION...
+                                    if (n.index != e || f > bound) { // SEARCH FOR SOLUTION...
                                         stack.emplace(_open.back(), _params);
                                     }
                                     else { // SOLUTION REACHED...
-- 
2.43.0


From 2878cda468cef676c63fc0694d9c22f39ee4af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 35/42] fix: GJPS returned nodes to another resource than they
 came from

---
 include/solvers/gjps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index 4bca33d..824e1df 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -345,7 +345,7 @@ namespace chdr::solvers {
 
                                 if (!_closed.contains(n)) {
                                     if (curr_ptr == nullptr) {
-                                        curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
+                                        curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
                                     }
 
                                     if constexpr (params_t::lazy_sorting::value) {
-- 
2.43.0


From ffb325c004b57f53373a4fd95116d613fcba0d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 36/42] fix: graph built from a grid skipped neighbouring
 junctions and mixed up passages

---
 include/mazes/graph.hpp | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index b1ad3bf..09fbbea 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -172,18 +172,13 @@ namespace chdr::mazes {
                     std::pmr::unsynchronized_pool_resource pool;
                     stack<edge_t> stack(&pool);
 
-                    std::pmr::unordered_set<index_t> global_closed(&pool);
-                    std::pmr::unordered_set<index_t> local_closed(&pool);
-
-                    std::pmr::unordered_map<index_t, neighbours_t> thread_connections(&pool);
+                    std::pmr::unordered_set<index_t> closed(&pool);
+                    neighbours_t connections;
 
                     for (auto index = _start; index < _end; ++index) {
 
                         if (const auto& element = _grid[index]; element.is_active()) {
 
-                            global_closed.clear();
-                            global_closed.insert(index);
-
                             if (const auto& neighbours = _grid.get_neighbours(index); !_grid.is_transitory(neighbours)) {
 
                                 for (const auto& n1 : neighbours) {
@@ -192,7 +187,9 @@ namespace chdr::mazes {
 
                                         const auto nIdx1 = static_cast<index_t>(utils::to_1d(nCoord1, size));
 
-                                        local_closed.clear();
+                                        connections.clear();
+                                        closed.clear();
+                                        closed.insert(index);
                                         stack.emplace(std::make_pair(nIdx1, static_cast<scalar_t>(1)));
 
                                         while (!stack.empty()) {
@@ -200,36 +197,29 @@ namespace chdr::mazes {
                                             const auto [currIdx, currDistance] = std::move(stack.top());
                                             stack.pop();
 
-                                            if (local_closed.find(currIdx) == local_closed.end()) {
+                                            closed.insert(currIdx);
 
-                                                 local_closed.insert(currIdx);
-                                                global_closed.insert(currIdx);
+                                            // Every passage is followed up to the first node that is not transitory:
+                                            if (!_grid.is_transitory(currIdx)) {
+                                                connections.emplace_back(currIdx, currDistance);
+                                            }
+                                            else {
 
                                                 for (const auto& n3 : _grid.get_neighbours(currIdx)) {
 
                                                     if (const auto& [sActive3, sCoord3] = n3; sActive3) {
 
                                                         if (const auto s = static_cast<index_t>(utils::to_1d(sCoord3, size));
-                                                            global_closed.find(s) == global_closed.end()
+                                                            closed.find(s) == closed.end()
                                                         ) {
-
-                                                            const edge_t next = std::make_pair(s, currDistance + static_cast<scalar_t>(1));
-
-                                                            if (_grid.is_transitory(s)) {
-                                                                stack.emplace(std::move(next));
-                                                            }
-                                                            else {
-                                                                thread_connections[nIdx1].emplace_back(std::move(next));
-                                                                stack.clear();
-                                                                break;
-                                                            }
+                                                            stack.emplace(std::make_pair(s, currDistance + static_cast<scalar_t>(1)));
                                                         }
                                                     }
                                                 }
                                             }
                                         }
 
-                                        for (const auto& item : thread_connections[nIdx1]) {
+                                        for (const auto& item : connections) {
                                             const std::lock_guard lock(mtx);
                                             add(index, item);
                                         }
-- 
2.43.0


From eaf633ab08cb6cfc1102051d4ec7744f222412f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:58 +0000
Subject: [PATCH 37/42] fix: negative coordinates were taken for cells of the
 maze

---
 include/mazes/grid.hpp          | 12 ++++++------
 include/solvers/base/solver.hpp | 11 +++++++----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/mazes/grid.hpp b/include/mazes/grid.hpp
index 7e0d7c2..141d674 100644
--- a/include/mazes/grid.hpp
+++ b/include/mazes/grid.hpp
@@ -275,7 +275,7 @@ namespace chdr::mazes {
             for (size_t i = 0U; i < s_rank; ++i) {
                 coord[i] += (_direction[i] - 1U);
 
-                if (coord[i] >= m_size[i]) {
+                if (static_cast<size_t>(coord[i]) >= static_cast<size_t>(m_size[i])) {
                     oob = true;
                     break;
                 }
@@ -299,7 +299,7 @@ namespace chdr::mazes {
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
             for (size_t i = 0U; i < s_rank; ++i) {
-                if (_id[i] >= m_size[i]) {
+                if (static_cast<size_t>(_id[i]) >= static_cast<size_t>(m_size[i])) {
                     return false;
                 }
             }
@@ -485,7 +485,7 @@ namespace chdr::mazes {
             for (size_t i = 0U; i < s_rank; ++i) {
                 coord[i] += (direction[i] - static_cast<typename coord_t::value_type>(1U));
 
-                if (coord[i] >= m_size[i]) {
+                if (static_cast<size_t>(coord[i]) >= static_cast<size_t>(m_size[i])) {
                     oob = true;
 
                     if constexpr (s_rank > 4U) {
@@ -741,7 +741,7 @@ namespace chdr::mazes {
             for (size_t i = 0U; i < s_rank; ++i) {
                 coord[i] += (_direction[i] - 1U);
 
-                if (coord[i] >= m_size[i]) {
+                if (static_cast<size_t>(coord[i]) >= static_cast<size_t>(m_size[i])) {
                     oob = true;
                     break;
                 }
@@ -765,7 +765,7 @@ namespace chdr::mazes {
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
             for (size_t i = 0U; i < s_rank; ++i) {
-                if (_id[i] >= m_size[i]) {
+                if (static_cast<size_t>(_id[i]) >= static_cast<size_t>(m_size[i])) {
                     return false;
                 }
             }
@@ -949,7 +949,7 @@ namespace chdr::mazes {
             for (size_t i = 0U; i < s_rank; ++i) {
                 coord[i] += (direction[i] - static_cast<typename coord_t::value_type>(1U));
 
-                if (coord[i] >= m_size[i]) {
+                if (static_cast<size_t>(coord[i]) >= static_cast<size_t>(m_size[i])) {
                     oob = true;
 
                     if constexpr (s_rank > 4U) {
diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 9d53fc4..769e53c 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -883,16 +883,19 @@ namespace chdr::solvers {
 
             try {
 
-                const auto s = static_cast<typename params_t::index_type>(utils::to_1d(_params.start, _params.size));
-                const auto e = static_cast<typename params_t::index_type>(utils::to_1d(_params.end,   _params.size));
-
                 bool in_bounds = true;
                 if constexpr (!solver_utils::template is_graph_v<decltype(_params.maze)>) {
                     for (size_t i = 0U; i < std::tuple_size_v<typename params_t::coord_type>; ++i) {
-                        in_bounds = in_bounds && _params.start[i] < _params.size[i] && _params.end[i] < _params.size[i];
+                        in_bounds = in_bounds &&
+                            static_cast<size_t>(_params.start[i]) < static_cast<size_t>(_params.size[i]) &&
+                            static_cast<size_t>(_params.end  [i]) < static_cast<size_t>(_params.size[i]);
                     }
                 }
 
+                // Coordinates outside of the maze have no index.
+                const auto s = in_bounds ? static_cast<typename params_t::index_type>(utils::to_1d(_params.start, _params.size)) : typename params_t::index_type{};
+                const auto e = in_bounds ? static_cast<typename params_t::index_type>(utils::to_1d(_params.end,   _params.size)) : typename params_t::index_type{};
+
                 if (in_bounds &&
                     _params.maze.contains(s) && _params.maze[s].is_active() &&
                     _params.maze.contains(e) && _params.maze[e].is_active()
-- 
2.43.0


From faccee8aea85d7248c59d914c51545c12679ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:08 +0000
Subject: [PATCH 38/42] fix: dijkstra took the same node again for every route
 to it

---
 include/solvers/dijkstra.hpp | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/include/solvers/dijkstra.hpp b/include/solvers/dijkstra.hpp
index 0f04e17..05969f5 100644
--- a/include/solvers/dijkstra.hpp
+++ b/include/solvers/dijkstra.hpp
@@ -179,10 +179,16 @@ namespace chdr::solvers {
                 const auto [entry, inserted] = result.m_data.emplace(_.m_index, _);
                 auto& curr = entry->second;
 
-                // Without sorting, a cheaper route may surface after a more expensive one:
-                if (!inserted && _.m_gScore < curr.m_gScore) {
-                    curr.m_gScore = _.m_gScore;
-                    curr.m_parent = _.m_parent;
+                // A node is taken again only if a cheaper route to it surfaced after a more expensive one:
+                if (!inserted) {
+
+                    if (_.m_gScore < curr.m_gScore) {
+                        curr.m_gScore = _.m_gScore;
+                        curr.m_parent = _.m_parent;
+                    }
+                    else {
+                        continue;
+                    }
                 }
 
                 for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
@@ -191,22 +197,8 @@ namespace chdr::solvers {
 
                         auto g = curr.m_gScore + n.distance;
 
-                        if (const auto search = result.m_data.find(n.index); search != result.m_data.end()) {
-
-                            if (auto& child = search->second; g < child.m_gScore) {
+                        if (const auto search = result.m_data.find(n.index); search == result.m_data.end() || g < search->second.m_gScore) {
 
-                                child.m_gScore = g;
-                                child.m_parent = &curr;
-
-                                if constexpr (params_t::lazy_sorting::value) {
-                                    _open.emplace_nosort(child);
-                                }
-                                else {
-                                    _open.emplace(child);
-                                }
-                            }
-                        }
-                        else {
                             if constexpr (params_t::lazy_sorting::value) {
                                 _open.emplace_nosort(n.index, g, &curr);
                             }
-- 
2.43.0


From 67a9c2d1675af4d856be525cc813f2dd991cb064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:00 +0000
Subject: [PATCH 39/42] fix: existence set wrote out of bounds when the largest
 hash was inserted

---
 include/types/containers/existence_set.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/types/containers/existence_set.hpp b/include/types/containers/existence_set.hpp
index 4b5ccc7..9a38dfd 100644
--- a/include/types/containers/existence_set.hpp
+++ b/include/types/containers/existence_set.hpp
@@ -17,6 +17,7 @@
 #include <functional>
 #include <limits>
 #include <memory_resource>
+#include <stdexcept>
 #include <type_traits>
 #include <vector>
 
@@ -110,6 +111,11 @@ namespace chdr {
         constexpr void enable(size_t _hash) {
 
             if (_hash >= c.size()) {
+
+                if (_hash >= c.max_size()) {
+                    throw std::length_error("Hash is too large for the set."); // '_hash + 1' may not be representable.
+                }
+
                 resize(_hash + 1U);
             }
 
-- 
2.43.0


From 87b8cd2f11e2ecfc6d7b6fd099bcb6bbac5c9f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:12 +0000
Subject: [PATCH 40/42] fix: heap of pointers returned the address of its slot
 instead of the element

---
 include/types/containers/heap.hpp | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 717ee18..5260f1a 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -273,12 +273,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(begin().base());
-            }
-            else {
-                return *begin();
-            }
+            return *begin();
         }
 
         /**
@@ -290,12 +285,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(begin().base());
-            }
-            else {
-                return *begin();
-            }
+            return *begin();
         }
 
         /**
@@ -307,12 +297,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(end().base());
-            }
-            else {
-                return *(end() - 1U);
-            }
+            return *(end() - 1U);
         }
 
         /**
@@ -324,12 +309,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(end().base());
-            }
-            else {
-                return *(end() - 1U);
-            }
+            return *(end() - 1U);
         }
 
         /**
-- 
2.43.0


From 380c24a35591d7a39443b95c1b9584d0620f9c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:12 +0000
Subject: [PATCH 41/42] fix: heap lost its order on insertion at a position and
 never returned from erasing a range

---
 include/types/containers/heap.hpp | 42 ++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 5260f1a..5f01cd4 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -818,11 +818,17 @@ namespace chdr {
          * @param _value The value to insert into the heap.
          * @return iterator_t An iterator pointing to the inserted element.
          */
-        constexpr iterator_t insert(iterator_t _position, const T& _value) {
-            auto distance_from_start = std::distance(c.begin(), _position) - 1U; // Adjust for super element.
-            c.insert(_position, _value);
-            sort_up(c[distance_from_start]);
-            return c.begin() + distance_from_start + 1U; // Return iterator to inserted element
+        constexpr iterator_t insert([[maybe_unused]] iterator_t _position, const T& _value) {
+
+            // The position can only be a hint, as the heap property determines where the element belongs.
+            c.push_back(_value);
+
+            auto i = size();
+            for (; i > 1U && comp(c[parent_of(i)], c[i]); i = parent_of(i)) {
+                std::swap(c[i], c[parent_of(i)]);
+            }
+
+            return c.begin() + i; // Return iterator to inserted element
         }
 
         /**
@@ -832,11 +838,17 @@ namespace chdr {
          * @param _value The value to insert into the heap.
          * @return iterator_t An iterator pointing to the inserted element.
          */
-        constexpr iterator_t insert(iterator_t _position, T&& _value) {
-            auto distance_from_start = std::distance(c.begin(), _position) - 1U; // Adjust for super element.
-            c.insert(_position, std::move(_value));
-            sort_up(c[distance_from_start]);
-            return c.begin() + distance_from_start + 1U; // Return iterator to inserted element
+        constexpr iterator_t insert([[maybe_unused]] iterator_t _position, T&& _value) {
+
+            // The position can only be a hint, as the heap property determines where the element belongs.
+            c.push_back(std::move(_value));
+
+            auto i = size();
+            for (; i > 1U && comp(c[parent_of(i)], c[i]); i = parent_of(i)) {
+                std::swap(c[i], c[parent_of(i)]);
+            }
+
+            return c.begin() + i; // Return iterator to inserted element
         }
 
         /**
@@ -895,8 +907,14 @@ namespace chdr {
          * @param _last Iterator to the element past the last one to erase.
          */
         constexpr void erase(iterator_t _first, iterator_t _last) {
-            for (auto it = _first; it != _last;) {
-                it = erase(it); // Keep erasing until the last element is removed.
+
+            c.erase(_first, _last);
+
+            // Restore heap property:
+            if (!empty()) {
+                for (size_t i = (size() + Kd - 2U) / Kd; i >= 1U; --i) {
+                    sort_down(c[i]);
+                }
             }
         }
 
-- 
2.43.0


From f7cbf57e8aee023ae6aef282fccc5208d63384ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:27 +0000
Subject: [PATCH 42/42] fix: solving with the parameters as arguments called
 itself without end

---
 include/solvers/base/solver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 769e53c..bff7830 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -849,7 +849,8 @@ namespace chdr::solvers {
         constexpr
 #endif // __cplusplus >= 202003L
         static auto solve(Args&&... _args) {
-            return solve(std::forward<Args>(_args)...);
+            const params_t params { std::forward<Args>(_args)... };
+            return solve(params);
         }
 
         /**
-- 
2.43.0

