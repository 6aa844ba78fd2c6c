From c4935cfdd9b8106696f53b6a9ce876868f94e0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 01/83] fix: accept fractional cutoff in breadth-first searches

---
 graphblas_algorithms/algorithms/_bfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/_bfs.py b/graphblas_algorithms/algorithms/_bfs.py
index 8189aae..16f081f 100644
--- a/graphblas_algorithms/algorithms/_bfs.py
+++ b/graphblas_algorithms/algorithms/_bfs.py
@@ -8,7 +8,7 @@ from graphblas.semiring import any_pair
 def _get_cutoff(n, cutoff):
     if cutoff is None or cutoff >= n:
         return n  # Everything
-    return cutoff + 1  # Inclusive
+    return int(cutoff) + 1  # Inclusive
 
 
 # Push-pull optimization is possible, but annoying to implement
-- 
2.43.0


From d7efcba42bb1b7d2d90950214c268cce9c45770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 02/83] fix: raise NodeNotFound for missing nodes in efficiency
 and lowest_common_ancestor

---
 graphblas_algorithms/nxapi/efficiency_measures.py     | 7 ++++++-
 graphblas_algorithms/nxapi/lowest_common_ancestors.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/nxapi/efficiency_measures.py b/graphblas_algorithms/nxapi/efficiency_measures.py
index 06971a2..725cde2 100644
--- a/graphblas_algorithms/nxapi/efficiency_measures.py
+++ b/graphblas_algorithms/nxapi/efficiency_measures.py
@@ -2,8 +2,13 @@ from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.graph import to_undirected_graph
 from graphblas_algorithms.utils import not_implemented_for
 
+from .exception import NodeNotFound
+
 
 @not_implemented_for("directed")
 def efficiency(G, u, v):
     G = to_undirected_graph(G)
-    return algorithms.efficiency(G, u, v)
+    try:
+        return algorithms.efficiency(G, u, v)
+    except KeyError as e:
+        raise NodeNotFound(*e.args) from e
diff --git a/graphblas_algorithms/nxapi/lowest_common_ancestors.py b/graphblas_algorithms/nxapi/lowest_common_ancestors.py
index f94e8c2..98359a7 100644
--- a/graphblas_algorithms/nxapi/lowest_common_ancestors.py
+++ b/graphblas_algorithms/nxapi/lowest_common_ancestors.py
@@ -2,10 +2,15 @@ from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_directed_graph
 from graphblas_algorithms.utils import not_implemented_for
 
+from .exception import NodeNotFound
+
 __all__ = ["lowest_common_ancestor"]
 
 
 @not_implemented_for("undirected")
 def lowest_common_ancestor(G, node1, node2, default=None):
     G = to_directed_graph(G)
-    return algorithms.lowest_common_ancestor(G, node1, node2, default=default)
+    try:
+        return algorithms.lowest_common_ancestor(G, node1, node2, default=default)
+    except KeyError as e:
+        raise NodeNotFound(*e.args) from e
-- 
2.43.0


From 691a3d100587d0ecb1fd7bfcc5490b7f31cc0e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 03/83] fix: matrix_to_dicts with iso-valued, empty and
 transposed matrices

---
 graphblas_algorithms/classes/_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index ecf66d9..02d50ae 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -188,17 +188,19 @@ def matrix_to_dicts(self, A, *, use_row_index=False, use_column_index=False, val
         d = A.T.ss.export("hypercsc")
         rows = d["cols"].tolist()
         col_indices = d["row_indices"].tolist()
-        use_row_index, use_column_index = use_column_index, use_row_index
     else:
         d = A.ss.export("hypercsr")
         rows = d["rows"].tolist()
         col_indices = d["col_indices"].tolist()
     indptr = d["indptr"]
     values = d["values"].tolist()
+    if d.get("is_iso"):
+        values = values * len(col_indices)
     id_to_key = self.id_to_key
     if values_are_keys:
         values = [id_to_key[val] for val in values]
-    it = zip(rows, np.lib.stride_tricks.sliding_window_view(indptr, 2).tolist(), strict=True)
+    indptr = indptr.tolist()
+    it = zip(rows, zip(indptr[:-1], indptr[1:], strict=True), strict=True)
     if use_row_index and use_column_index:
         return {
             row: dict(zip(col_indices[start:stop], values[start:stop], strict=True))
-- 
2.43.0


From ccf6754acc52a38f8b468a385f65462af4ab186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 04/83] fix: expand_output must place rows by node also when
 nodes is a permutation of all nodes

---
 graphblas_algorithms/algorithms/shortest_paths/unweighted.py | 2 +-
 graphblas_algorithms/algorithms/shortest_paths/weighted.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/unweighted.py b/graphblas_algorithms/algorithms/shortest_paths/unweighted.py
index ec87b65..e0e7de7 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/unweighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/unweighted.py
@@ -21,7 +21,7 @@ def single_target_shortest_path_length(G, target, cutoff=None):
 
 def all_pairs_shortest_path_length(G, cutoff=None, *, nodes=None, expand_output=False):
     D = _bfs_levels(G, nodes, cutoff=cutoff)
-    if nodes is not None and expand_output and D.ncols != D.nrows:
+    if nodes is not None and expand_output:
         ids = G.list_to_ids(nodes)
         rv = Matrix(D.dtype, D.ncols, D.ncols, name=D.name)
         rv[ids, :] = D
diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index a83a060..98c7c1c 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -132,7 +132,7 @@ def bellman_ford_path_lengths(G, nodes=None, *, expand_output=False):
             D = _bfs_levels(G, nodes, dtype=iso_value.dtype)
             if iso_value != 1:
                 D *= iso_value
-            if nodes is not None and expand_output and D.ncols != D.nrows:
+            if nodes is not None and expand_output:
                 ids = G.list_to_ids(nodes)
                 rv = Matrix(D.dtype, D.ncols, D.ncols, name=D.name)
                 rv[ids, :] = D
@@ -190,7 +190,7 @@ def bellman_ford_path_lengths(G, nodes=None, *, expand_output=False):
         cur = select.valuelt(diag, 0)
         if any_pair(D @ cur).nvals > 0:
             raise Unbounded("Negative cycle detected.")
-    if nodes is not None and expand_output and D.ncols != D.nrows:
+    if nodes is not None and expand_output:
         rv = Matrix(D.dtype, n, n, name=D.name)
         rv[ids, :] = D
         return rv
-- 
2.43.0


From cd5b480756e7621f0aa2eedc0f81f029dc17b521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 05/83] fix: default chunksize on an empty graph

---
 graphblas_algorithms/nxapi/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/_utils.py b/graphblas_algorithms/nxapi/_utils.py
index 0bb9617..aeec1db 100644
--- a/graphblas_algorithms/nxapi/_utils.py
+++ b/graphblas_algorithms/nxapi/_utils.py
@@ -80,7 +80,7 @@ def normalize_chunksize(chunksize, itemsize=1, N=None):
             )
         number *= scale
         if chunkstring[-1] == "b":
-            number = max(1, number / itemsize)
+            number = max(1, number / max(1, itemsize))
         rv = int(round(number))
     if rv <= 0 or N is not None and rv >= N:
         return None
-- 
2.43.0


From ae0c2d6f6848b3d6ee2a9ee403810e6343b7b4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 06/83] fix: Bellman-Ford length on iso-valued graphs returns a
 number and handles zero weight with cutoff

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 98c7c1c..f5580af 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -27,12 +27,14 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         is_negative, iso_value = G.get_properties("has_negative_edges+ iso_value")
         if not is_negative:
             if cutoff is not None:
-                cutoff = int(cutoff // iso_value.get())
+                # With zero-weight edges, every reachable node is within the cutoff
+                cutoff = int(cutoff // iso_value.get()) if iso_value != 0 else None
             d = _bfs_level(G, source, target, cutoff=cutoff, dtype=iso_value.dtype)
             if dst_id is not None:
                 d = d.get(dst_id)
                 if d is None:
                     raise NoPath(f"node {target} not reachable from {source}")
+                return d * iso_value.get()
             if iso_value != 1:
                 d *= iso_value
             return d
-- 
2.43.0


From 47978c7293574caf37731163bee1b4663fa54ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 07/83] fix: Bellman-Ford length to a target must detect
 negative cycles that do not pass through the target

---
 .../algorithms/shortest_paths/weighted.py           | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index f5580af..fc1002b 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -14,6 +14,12 @@ __all__ = [
 ]
 
 
+def _can_reach(G, mask, dst_id):
+    """Is there a path to the target from any node whose value in `mask` is True?"""
+    indices = select.valuene(mask, False).new().to_coo(values=False)[0]
+    return indices.size > 0 and dst_id in _bfs_plain(G, index=indices)
+
+
 def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
     # No need for `is_weighted=` keyword, b/c this is assumed to be weighted (I think)
     src_id = G._key_to_id[source]
@@ -54,6 +60,8 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         A, is_negative, has_negative_diagonal = G.get_properties(
             "offdiag has_negative_edges- has_negative_diagonal"
         )
+        # We can't stop early at the target if there may be a negative cycle elsewhere
+        is_negative = is_negative or has_negative_diagonal
     if A.dtype == bool:
         # Should we upcast e.g. INT8 to INT64 as well?
         dtype = int
@@ -92,7 +100,10 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         if cutoff is not None:
             cur << select.valuele(cur, cutoff)
         mask << binary.lt(cur & d)
-        if dst_id is None and mask.reduce(monoid.lor) or dst_id is not None and mask.get(dst_id):
+        if dst_id is None:
+            if mask.reduce(monoid.lor):
+                raise Unbounded("Negative cycle detected.")
+        elif _can_reach(G, mask, dst_id):
             raise Unbounded("Negative cycle detected.")
     if has_negative_diagonal:
         # We removed diagonal entries above, so check if we visited one with a negative weight
-- 
2.43.0


From 7e49c9e235b033328e211919dfc880842383b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 08/83] fix: bellman_ford_path on negative weights, negative
 self-loops and unreachable targets

---
 .../algorithms/shortest_paths/weighted.py     | 29 +++++++------------
 .../nxapi/shortest_paths/weighted.py          |  6 ++++
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index fc1002b..73ca3e9 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -214,7 +214,8 @@ def _reconstruct_path_from_parents(G, parents, src, dst):
     indices, values = parents.to_coo(sort=False)
     d = dict(zip(indices.tolist(), values.tolist(), strict=True))
     if dst not in d:
-        return []
+        source, target = G.list_to_keys([src, dst])
+        raise NoPath(f"node {target} not reachable from {source}")
     cur = dst
     path = [cur]
     while cur != src:
@@ -232,10 +233,11 @@ def bellman_ford_path(G, source, target):
         if not is_negative:
             p = _bfs_parent(G, source, target)
             return _reconstruct_path_from_parents(G, p, src_id, dst_id)
-        raise Unbounded("Negative cycle detected.")
     A, is_negative, has_negative_diagonal = G.get_properties(
         "offdiag has_negative_edges- has_negative_diagonal"
     )
+    # We can't stop early at the target if there may be a negative cycle elsewhere
+    is_negative = is_negative or has_negative_diagonal
     if A.dtype == bool:
         # Should we upcast e.g. INT8 to INT64 as well?
         dtype = int
@@ -301,24 +303,15 @@ def bellman_ford_path(G, source, target):
         if cutoff is not None:
             cur << select.valuele(cur, cutoff)
         mask << binary.lt(cur & d)
-        if mask.get(dst_id):
+        if _can_reach(G, mask, dst_id):
             raise Unbounded("Negative cycle detected.")
-    path = _reconstruct_path_from_parents(G, p, src_id, dst_id)
-    if has_negative_diagonal and path:
-        mask.clear()
-        mask[G.list_to_ids(path)] = True
-        diag = G.get_property("diag", mask=mask.S)
-        if diag.nvals > 0:
+    if has_negative_diagonal:
+        # Is there a path from any visited node with negative self-loop to target?
+        cur << select.valuelt(G.get_property("diag"), 0)
+        mask << binary.pair(cur & d)
+        if _can_reach(G, mask, dst_id):
             raise Unbounded("Negative cycle detected.")
-        mask << binary.first(mask & cur)  # mask(cur.S, replace) << mask
-        if mask.nvals > 0:
-            # Is there a path from any visited node with negative self-loop to target?
-            # We could actually stop as soon as any from `path` is visited
-            indices, _ = mask.to_coo(values=False)[0]
-            q = _bfs_plain(G, target=target, index=indices, cutoff=_i)
-            if dst_id in q:
-                raise Unbounded("Negative cycle detected.")
-    return path
+    return _reconstruct_path_from_parents(G, p, src_id, dst_id)
 
 
 def negative_edge_cycle(G):
diff --git a/graphblas_algorithms/nxapi/shortest_paths/weighted.py b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
index b08dd85..f1f4754 100644
--- a/graphblas_algorithms/nxapi/shortest_paths/weighted.py
+++ b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
@@ -64,6 +64,10 @@ def bellman_ford_path(G, source, target, weight="weight"):
         return algorithms.bellman_ford_path(G, source, target)
     except KeyError as e:
         raise NodeNotFound(*e.args) from e
+    except exceptions.NoPath as e:
+        raise NetworkXNoPath(*e.args) from e
+    except exceptions.Unbounded as e:
+        raise NetworkXUnbounded(*e.args) from e
 
 
 def bellman_ford_path_length(G, source, target, weight="weight"):
@@ -74,6 +78,8 @@ def bellman_ford_path_length(G, source, target, weight="weight"):
         raise NodeNotFound(*e.args) from e
     except exceptions.NoPath as e:
         raise NetworkXNoPath(*e.args) from e
+    except exceptions.Unbounded as e:
+        raise NetworkXUnbounded(*e.args) from e
 
 
 def negative_edge_cycle(G, weight="weight", heuristic=True):
-- 
2.43.0


From fbd90dbf055e1c523342eb17bb896ba6a8a0a88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 09/83] fix: Floyd-Warshall predecessors of undirected graphs

---
 graphblas_algorithms/algorithms/shortest_paths/dense.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/dense.py b/graphblas_algorithms/algorithms/shortest_paths/dense.py
index 394d1b4..c016248 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/dense.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/dense.py
@@ -18,7 +18,8 @@ def floyd_warshall_predecessor_and_distance(
     # Typically, Floyd-Warshall algorithms sets the diagonal of D to 0 at the beginning.
     # This is unnecessary with sparse matrices, and we set the diagonal to 0 at the end.
     # We also don't iterate over index `i` if either row i or column i are empty.
-    if is_directed := G.is_directed():
+    # Predecessors are not symmetric, so we also need both triangles of undirected graphs for them.
+    if is_directed := G.is_directed() or compute_predecessors:
         A, row_degrees, column_degrees = G.get_properties("offdiag row_degrees- column_degrees-")
         nonempty_nodes = binary.pair(row_degrees & column_degrees).new(name="nonempty_nodes")
     else:
-- 
2.43.0


From f973c027a95085bc63a4c05eecc5ac0c90623f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 10/83] fix: Floyd-Warshall of undirected graphs with permuted
 nodes

---
 graphblas_algorithms/algorithms/shortest_paths/dense.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/dense.py b/graphblas_algorithms/algorithms/shortest_paths/dense.py
index c016248..c3e0dc7 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/dense.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/dense.py
@@ -22,14 +22,18 @@ def floyd_warshall_predecessor_and_distance(
     if is_directed := G.is_directed() or compute_predecessors:
         A, row_degrees, column_degrees = G.get_properties("offdiag row_degrees- column_degrees-")
         nonempty_nodes = binary.pair(row_degrees & column_degrees).new(name="nonempty_nodes")
-    else:
+    elif permutation is None:
         A, nonempty_nodes = G.get_properties("U- degrees-")
+    else:
+        A, nonempty_nodes = G.get_properties("offdiag degrees-")
     if permutation is not None:
         if len(permutation) != nonempty_nodes.size:
             raise GraphBlasAlgorithmException(
                 "permutation must contain every node in G with no repeats."
             )
         A = A[permutation, permutation].new()
+        if not is_directed:
+            A << select.triu(A, 1)
         nonempty_nodes = nonempty_nodes[permutation].new(name="nonempty_nodes")
 
     if A.dtype == bool or not is_weighted:
-- 
2.43.0


From c0f173efa8b7182065bb62cbbe795fc9f426b6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 11/83] fix: has_negative_diagonal must not conclude from
 properties that are not cached

---
 graphblas_algorithms/classes/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index f3e2239..7a08bc0 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -141,9 +141,11 @@ def has_negative_diagonal(G, mask=None):
             cache.get("has_negative_edges+") is True
             and cache.get("has_negative_edges-") is False
             or cache.get("has_negative_edges+") is True
-            and cache.get("min_element-", 0) >= 0
-            or cache.get("min_element+", 0) < 0
-            and cache.get("min_element+", 0) < cache.get("min_element-", 0)
+            and "min_element-" in cache
+            and cache["min_element-"].get(0) >= 0
+            or "min_element+" in cache
+            and "min_element-" in cache
+            and cache["min_element+"].get(0) < min(cache["min_element-"].get(0), 0)
         ):
             cache["has_negative_diagonal"] = True
         else:
-- 
2.43.0


From a0b08d992e8bfba55817c4c928b2b7caaf5e93ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 12/83] fix: iso_value of a graph whose is_iso property is
 already known to be False

---
 graphblas_algorithms/classes/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index 7a08bc0..117d472 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -238,7 +238,7 @@ def get_iso_value(G, mask=None):
                 # SuiteSparse:GraphBLAS
                 cache["iso_value"] = A.ss.iso_value
             else:
-                cache["iso_value"]
+                cache["iso_value"] = None
 
         # min_val, max_val = G.get_properties('min_element+ max_element+')
         # SuiteSparse:GraphBLAS
-- 
2.43.0


From 4601f1a27fe627351744466959f973b0ead6e297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 13/83] fix: total_degrees+ does not tell whether a DiGraph has
 self-edges

---
 graphblas_algorithms/classes/digraph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index 1e9fe5f..b9e15a8 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -364,8 +364,6 @@ def has_self_edges(G, mask=None):
             cache["has_self_edges"] = cache["column_degrees-"].reduce().get(0) < A.nvals
         elif "total_degrees-" in cache:
             cache["has_self_edges"] = cache["total_degrees-"].reduce().get(0) < 2 * A.nvals
-        elif "total_degrees+" in cache:
-            cache["has_self_edges"] = cache["total_degrees+"].reduce().get(0) > 2 * A.nvals
         else:
             G.get_property("diag")
     return cache["has_self_edges"]
-- 
2.43.0


From cb4053a12e19221e2a5d8d79d1bc961377a53d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 14/83] fix: reduce to scalar without self-edges from cached
 triangles

---
 graphblas_algorithms/classes/_caching.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/_caching.py b/graphblas_algorithms/classes/_caching.py
index 3074bed..a8c7f3e 100644
--- a/graphblas_algorithms/classes/_caching.py
+++ b/graphblas_algorithms/classes/_caching.py
@@ -123,9 +123,9 @@ def get_reduce_to_scalar(key, opname):
                     and opclass in {"BinaryOp", "Monoid"}
                     and G.get_property("has_self_edges")
                 ):
-                    return op_(
-                        cache["L-"].reduce(op_)._as_vector() | cache["U-"].reduce(op_)._as_vector()
-                    )[0].new(name=key)
+                    cache[key] = op_(
+                        cache["L-"].reduce_scalar(op_).new() | cache["U-"].reduce_scalar(op_).new()
+                    ).new(name=key)
                 elif not G.get_property("has_self_edges"):
                     cache[key] = G.get_property(f"{keybase}+")
                 else:
-- 
2.43.0


From 2d7018062b47f9b9d9806947446202d5df6cbc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 15/83] fix: do not compute count_element properties by
 counting degrees

---
 graphblas_algorithms/classes/_caching.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/graphblas_algorithms/classes/_caching.py b/graphblas_algorithms/classes/_caching.py
index a8c7f3e..c75729e 100644
--- a/graphblas_algorithms/classes/_caching.py
+++ b/graphblas_algorithms/classes/_caching.py
@@ -99,6 +99,8 @@ def get_reduce_to_vector(key, opname, methodname):
 def get_reduce_to_scalar(key, opname):
     op_ = op.from_string(opname)
     op_, opclass = operator.find_opclass(op_)
+    # Aggregators such as "count" can't be computed by aggregating the aggregated rows or columns
+    reuse = opclass in {"BinaryOp", "Monoid"}
     keybase = key[:-1]
     if key[-1] == "-":
 
@@ -107,13 +109,13 @@ def get_reduce_to_scalar(key, opname):
             if key not in cache:
                 if cache.get("has_self_edges") is False and f"{keybase}+" in cache:
                     cache[key] = cache[f"{keybase}+"]
-                elif f"{opname}_rowwise-" in cache:
+                elif reuse and f"{opname}_rowwise-" in cache:
                     cache[key] = cache[f"{opname}_rowwise-"].reduce(op_).new(name=key)
-                elif f"{opname}_columnwise-" in cache:
+                elif reuse and f"{opname}_columnwise-" in cache:
                     cache[key] = cache[f"{opname}_columnwise-"].reduce(op_).new(name=key)
-                elif cache.get("has_self_edges") is False and f"{opname}_rowwise+" in cache:
+                elif reuse and cache.get("has_self_edges") is False and f"{opname}_rowwise+" in cache:
                     cache[key] = cache[f"{opname}_rowwise+"].reduce(op_).new(name=key)
-                elif cache.get("has_self_edges") is False and f"{opname}_columnwise+" in cache:
+                elif reuse and cache.get("has_self_edges") is False and f"{opname}_columnwise+" in cache:
                     cache[key] = cache[f"{opname}_columnwise+"].reduce(op_).new(name=key)
                 elif "offdiag" in cache:
                     cache[key] = cache["offdiag"].reduce_scalar(op_).new(name=key)
@@ -148,13 +150,13 @@ def get_reduce_to_scalar(key, opname):
             if key not in cache:
                 if cache.get("has_self_edges") is False and f"{keybase}-" in cache:
                     cache[key] = cache[f"{keybase}-"]
-                elif f"{opname}_rowwise+" in cache:
+                elif reuse and f"{opname}_rowwise+" in cache:
                     cache[key] = cache[f"{opname}_rowwise+"].reduce(op_).new(name=key)
-                elif f"{opname}_columnwise+" in cache:
+                elif reuse and f"{opname}_columnwise+" in cache:
                     cache[key] = cache[f"{opname}_columnwise+"].reduce(op_).new(name=key)
-                elif cache.get("has_self_edges") is False and f"{opname}_rowwise-" in cache:
+                elif reuse and cache.get("has_self_edges") is False and f"{opname}_rowwise-" in cache:
                     cache[key] = cache[f"{opname}_rowwise-"].reduce(op_).new(name=key)
-                elif cache.get("has_self_edges") is False and f"{opname}_columnwise-" in cache:
+                elif reuse and cache.get("has_self_edges") is False and f"{opname}_columnwise-" in cache:
                     cache[key] = cache[f"{opname}_columnwise-"].reduce(op_).new(name=key)
                 else:
                     cache[key] = A.reduce_scalar(op_).new(name=key)
-- 
2.43.0


From 9501636147e5eba73238285b0a6b41d06fe6b23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 16/83] fix: fractional or infinite cutoff in weighted path
 lengths of integer graphs

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 73ca3e9..070cc33 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -28,6 +28,8 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
     else:
         dst_id = None
 
+    if cutoff is not None and np.isposinf(cutoff):
+        cutoff = None
     if G.get_property("is_iso"):
         # If the edges are iso-valued (and positive), then we can simply do level BFS
         is_negative, iso_value = G.get_properties("has_negative_edges+ iso_value")
@@ -69,6 +71,9 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         dtype = A.dtype
     n = A.nrows
     d = Vector(dtype, n, name="single_source_bellman_ford_path_length")
+    if cutoff is not None and np.issubdtype(d.dtype.np_type, np.integer):
+        # Compare integers to an integer
+        cutoff = int(np.floor(cutoff))
     d[src_id] = 0
     cur = d.dup(name="cur")
     mask = Vector(bool, n, name="mask")
-- 
2.43.0


From 0f8821e628801b7650534371d5aa40db42781fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 17/83] fix: clustering of directed graphs ignores self-loops

---
 graphblas_algorithms/algorithms/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index 0b9ab21..7686de1 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -100,7 +100,8 @@ def clustering(G, *, weighted=False, mask=None):
 
 def clustering_directed(G, *, weighted=False, mask=None):
     # Can we apply the mask earlier in the computation?
-    A, AT = G.get_properties("offdiag AT")
+    A = G.get_property("offdiag")
+    AT = A.T
     if weighted:
         maxval = G.get_property("max_element-")
         A = unary.cbrt(A / maxval)
-- 
2.43.0


From 0f47fbd89b3a915b71380835138ff54ea1372d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 18/83] fix: average_clustering with count_zeros=False does not
 count explicit zeros

---
 graphblas_algorithms/algorithms/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index 7686de1..f9bd4a7 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -178,7 +178,7 @@ def average_clustering(G, *, count_zeros=True, weighted=False, mask=None):
     c = clustering(G, weighted=weighted, mask=mask)
     val = c.reduce().get(0)
     if not count_zeros:
-        return val / c.nvals
+        return val / c.select("!=", 0).nvals
     if mask is not None:
         return val / mask.parent.nvals
     return val / c.size
@@ -188,7 +188,7 @@ def average_clustering_directed(G, *, count_zeros=True, weighted=False, mask=Non
     c = clustering_directed(G, weighted=weighted, mask=mask)
     val = c.reduce().get(0)
     if not count_zeros:
-        return val / c.nvals
+        return val / c.select("!=", 0).nvals
     if mask is not None:
         return val / mask.parent.nvals
     return val / c.size
-- 
2.43.0


From f5c6ef697624e40cbfdf550633954369ffc94e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 19/83] fix: cached average_clustering depends on whether it is
 weighted

---
 graphblas_algorithms/nxapi/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 8e61f9b..61ae7a0 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -69,7 +69,7 @@ def average_clustering(G, nodes=None, weight=None, count_zeros=True):
         func = algorithms.average_clustering
     if mask is None:
         return G._cacheit(
-            f"average_clustering(count_zeros={count_zeros})",
+            f"average_clustering(count_zeros={count_zeros}, weighted={weighted})",
             func,
             G,
             weighted=weighted,
-- 
2.43.0


From 79a7fb980916264c5ad8bf70701d6d067150d350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 20/83] fix: square_clustering ignores edge weights

---
 graphblas_algorithms/algorithms/cluster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index f9bd4a7..d195409 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -1,6 +1,6 @@
 import numpy as np
 from graphblas import Matrix, Vector, binary, replace, unary
-from graphblas.semiring import plus_first, plus_pair, plus_times
+from graphblas.semiring import plus_first, plus_pair, plus_second, plus_times
 
 __all__ = [
     "single_triangle",
@@ -218,7 +218,7 @@ def single_square_clustering(G, idx):
     denom -= deg * (deg - 1)
     # (3) The main contribution to the denominator: degrees[u] + degrees[w] for each u-w combo.
     # This is the only positive term.
-    denom += plus_times(v @ degrees).value * (deg - 1)
+    denom += plus_second(v @ degrees).value * (deg - 1)
     # (4) Subtract the number of squares
     denom -= squares
     # And we're done!
@@ -274,7 +274,7 @@ def square_clustering(G, node_ids=None):
     # (3) The main contribution to the denominator: degrees[u] + degrees[w] for each u-w combo.
     #   uw_degrees = plus_times(A @ degrees) * (degrees - 1)
     # denom(binary.times) << plus_times(A @ degrees)
-    denom(binary.times, denom.S) << plus_times(Asubset @ degrees)
+    denom(binary.times, denom.S) << plus_second(Asubset @ degrees)
 
     # (4) Subtract the number of squares
     denom(binary.minus) << binary.plus(neg_denom & squares)
-- 
2.43.0


From 82a3a9a8856f86ab368601cd5e83cd4ec69fa61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 21/83] fix: partition with chunksize 1 yields chunks

---
 graphblas_algorithms/nxapi/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/_utils.py b/graphblas_algorithms/nxapi/_utils.py
index aeec1db..3aa3586 100644
--- a/graphblas_algorithms/nxapi/_utils.py
+++ b/graphblas_algorithms/nxapi/_utils.py
@@ -97,7 +97,7 @@ def partition(chunksize, L, *, evenly=True):
         yield L
         return
     if chunksize == 1:
-        yield from L
+        yield from (L[i : i + 1] for i in range(N))
         return
     if evenly:
         k = ceil(len(L) / chunksize)
-- 
2.43.0


From e9f4f3612e0d4313b8221dd817d200254646038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 22/83] fix: square_clustering in chunks when there are no
 nodes to compute

---
 graphblas_algorithms/nxapi/cluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 61ae7a0..72d144f 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -89,6 +89,8 @@ def _square_clustering_split(G, node_ids=None, *, chunksize):
             result = res
         else:
             result << monoid.any(result | res)
+    if result is None:
+        result = algorithms.square_clustering(G, node_ids)
     return result
 
 
-- 
2.43.0


From ab47a717bac3cf720fe1949b7234ccf6127665fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 23/83] fix: square_clustering of given nodes includes nodes
 without squares

---
 graphblas_algorithms/nxapi/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 72d144f..5a4110b 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -115,12 +115,13 @@ def square_clustering(G, nodes=None, *, chunksize="256 MiB"):
     if nodes in G:
         idx = G._key_to_id[nodes]
         return algorithms.single_square_clustering(G, idx)
+    nodes = list(nodes)
     ids = G.list_to_ids(nodes)
     if chunksize is None:
         result = algorithms.square_clustering(G, ids)
     else:
         result = _square_clustering_split(G, ids, chunksize=chunksize)
-    return G.vector_to_nodemap(result)
+    return G.vector_to_nodemap(result, mask=G.list_to_mask(nodes), fill_value=0)
 
 
 @not_implemented_for("directed")
-- 
2.43.0


From 4a5ee60aec826c5864cac26e5920e1c4d12dbfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 24/83] fix: generalized_degree of a node maps numbers of
 triangles, not nodes

---
 graphblas_algorithms/nxapi/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 5a4110b..98267f6 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -3,6 +3,7 @@ from graphblas import monoid
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
 from graphblas_algorithms.classes.graph import to_undirected_graph
+from graphblas_algorithms.classes.nodemap import VectorMap
 from graphblas_algorithms.utils import not_implemented_for
 
 from ._utils import normalize_chunksize, partition
@@ -131,7 +132,7 @@ def generalized_degree(G, nodes=None):
         return {}
     if nodes in G:
         result = algorithms.single_generalized_degree(G, nodes)
-        return G.vector_to_nodemap(result)
+        return VectorMap(result)
     mask = G.list_to_mask(nodes)
     result = algorithms.generalized_degree(G, mask=mask)
     return G.matrix_to_vectornodemap(result)
-- 
2.43.0


From 20afa119bdfba522edf319f267227c2ca1170ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 25/83] fix: generalized_degree includes nodes without edges

---
 graphblas_algorithms/classes/_utils.py | 3 ++-
 graphblas_algorithms/nxapi/cluster.py  | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index 02d50ae..34c0caf 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -168,11 +168,12 @@ def matrix_to_nodenodemap(self, A, *, fill_value=None, values_are_keys=False):
     return rv
 
 
-def matrix_to_vectornodemap(self, A):
+def matrix_to_vectornodemap(self, A, *, rows=None):
     from .nodemap import VectorNodeMap
 
     rv = VectorNodeMap(A, key_to_id=self._key_to_id)
     rv._id_to_key = self._id_to_key
+    rv._rows = rows
     return rv
 
 
diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 98267f6..d02e326 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -1,4 +1,4 @@
-from graphblas import monoid
+from graphblas import Vector, monoid
 
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
@@ -135,4 +135,8 @@ def generalized_degree(G, nodes=None):
         return VectorMap(result)
     mask = G.list_to_mask(nodes)
     result = algorithms.generalized_degree(G, mask=mask)
-    return G.matrix_to_vectornodemap(result)
+    if mask is None:
+        rows = Vector.from_scalar(1, len(G))
+    else:
+        rows = mask.parent
+    return G.matrix_to_vectornodemap(result, rows=rows)
-- 
2.43.0


From dd7b5d696409b9116d2eacc6a6180cb5647b35a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 26/83] fix: weighted clustering of graphs without edges
 between different nodes

---
 graphblas_algorithms/nxapi/cluster.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index d02e326..3adbe4c 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -45,7 +45,8 @@ def clustering(G, nodes=None, weight=None):
     G = to_graph(G, weight=weight)  # to directed or undirected
     if len(G) == 0:
         return {}
-    weighted = weight is not None
+    # There is no maximum weight to scale by (and no triangle) if all edges are self-edges
+    weighted = weight is not None and not G.get_property("max_element-").is_empty
     if nodes in G:
         if G.is_directed():
             return algorithms.single_clustering_directed(G, nodes, weighted=weighted)
@@ -62,7 +63,8 @@ def average_clustering(G, nodes=None, weight=None, count_zeros=True):
     G = to_graph(G, weight=weight)  # to directed or undirected
     if len(G) == 0:
         raise ZeroDivisionError
-    weighted = weight is not None
+    # There is no maximum weight to scale by (and no triangle) if all edges are self-edges
+    weighted = weight is not None and not G.get_property("max_element-").is_empty
     mask = G.list_to_mask(nodes)
     if G.is_directed():
         func = algorithms.average_clustering_directed
-- 
2.43.0


From f5adae5dd086925d7f3df0cc7fa257770b429c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 27/83] fix: iso_value of an iso-valued graph without edges

---
 graphblas_algorithms/classes/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index 117d472..db13f54 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -234,7 +234,7 @@ def get_iso_value(G, mask=None):
     cache = G._cache
     if "iso_value" not in cache:
         if "is_iso" in cache:
-            if cache["is_iso"]:
+            if cache["is_iso"] and A.nvals > 0:
                 # SuiteSparse:GraphBLAS
                 cache["iso_value"] = A.ss.iso_value
             else:
@@ -242,7 +242,7 @@ def get_iso_value(G, mask=None):
 
         # min_val, max_val = G.get_properties('min_element+ max_element+')
         # SuiteSparse:GraphBLAS
-        elif A.ss.is_iso:
+        elif A.ss.is_iso and A.nvals > 0:
             cache["iso_value"] = A.ss.iso_value
             cache["is_iso"] = True
         else:
-- 
2.43.0


From afdfa5ebe3aba951c3abb52ba655566e578a1081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 28/83] fix: raise NodeNotFound for a missing node in ego_graph

---
 graphblas_algorithms/nxapi/generators/ego.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/nxapi/generators/ego.py b/graphblas_algorithms/nxapi/generators/ego.py
index e591cb3..2c0e3bf 100644
--- a/graphblas_algorithms/nxapi/generators/ego.py
+++ b/graphblas_algorithms/nxapi/generators/ego.py
@@ -1,11 +1,16 @@
 from graphblas_algorithms import generators
 from graphblas_algorithms.classes.digraph import to_graph
 
+from ..exception import NodeNotFound
+
 __all__ = ["ego_graph"]
 
 
 def ego_graph(G, n, radius=1, center=True, undirected=False, distance=None):
     G = to_graph(G, weight=distance)
-    return generators.ego_graph(
-        G, n, radius=radius, center=center, undirected=undirected, is_weighted=distance is not None
-    )
+    try:
+        return generators.ego_graph(
+            G, n, radius=radius, center=center, undirected=undirected, is_weighted=distance is not None
+        )
+    except KeyError as e:
+        raise NodeNotFound(*e.args) from e
-- 
2.43.0


From 24abdba6ced99f541fdaec558750f6214acbc97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 29/83] fix: cut_size of directed graphs with T=None uses the
 complement

---
 graphblas_algorithms/algorithms/cuts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index 918dc56..f7cda66 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -22,6 +22,8 @@ def cut_size(G, S, T=None, *, is_weighted=False):
     else:
         rv = edges.nvals
     if G.is_directed():
+        if T is None:
+            T = (~S.S).new()
         edges = edge_boundary(G, T, S, is_weighted=is_weighted)
         if is_weighted:
             rv += edges.reduce_scalar(monoid.plus).get(0)
-- 
2.43.0


From 08e057b3815be5c450d94ce0aa639208f2265129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 30/83] fix: edge_boundary of directed graphs includes targets
 without outgoing edges

---
 graphblas_algorithms/algorithms/boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/boundary.py b/graphblas_algorithms/algorithms/boundary.py
index 96bd275..b3f964d 100644
--- a/graphblas_algorithms/algorithms/boundary.py
+++ b/graphblas_algorithms/algorithms/boundary.py
@@ -11,8 +11,8 @@ def edge_boundary(G, nbunch1, nbunch2=None, *, is_weighted=False):
         B = binary.pair(nbunch1 & G._A).new(name="boundary")
     if nbunch2 is None:
         # Default nbunch2 is the complement of nbunch1.
-        # We get the row_degrees to better handle hypersparse data.
-        nbunch2 = G.get_property("row_degrees+", mask=~nbunch1.S)
+        # We get the column_degrees to better handle hypersparse data.
+        nbunch2 = G.get_property("column_degrees+", mask=~nbunch1.S)
     if is_weighted:
         B << binary.first(B & nbunch2)
     else:
-- 
2.43.0


From ece49790c00b670162cb60ad63c324b70cc5b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 31/83] fix: weighted volume of directed graphs sums outgoing
 edges

---
 graphblas_algorithms/algorithms/cuts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index f7cda66..f5c8223 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -1,5 +1,5 @@
 from graphblas import monoid
-from graphblas.semiring import any_pair, plus_first
+from graphblas.semiring import any_pair, plus_second
 
 from .boundary import edge_boundary, node_boundary
 
@@ -34,7 +34,7 @@ def cut_size(G, S, T=None, *, is_weighted=False):
 
 def volume(G, S, *, weighted=False):
     if weighted:
-        degrees = plus_first(G._A @ S)
+        degrees = plus_second(S @ G._A)
     else:
         degrees = G.get_property("row_degrees+", mask=S.S)
     return degrees.reduce(monoid.plus).get(0)
-- 
2.43.0


From df1c4a18605814240c55a235af864c93dd826b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 32/83] fix: normalized_cut_size, conductance, edge_expansion
 and mixing_expansion use the weight

---
 graphblas_algorithms/algorithms/cuts.py | 24 ++++++++++++------------
 graphblas_algorithms/nxapi/cuts.py      |  8 ++++----
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index f5c8223..8b3733b 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -40,22 +40,22 @@ def volume(G, S, *, weighted=False):
     return degrees.reduce(monoid.plus).get(0)
 
 
-def normalized_cut_size(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
-    volume_S = volume(G, S)
-    volume_T = volume(G, T)
+def normalized_cut_size(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
+    volume_S = volume(G, S, weighted=is_weighted)
+    volume_T = volume(G, T, weighted=is_weighted)
     return num_cut_edges * ((1 / volume_S) + (1 / volume_T))
 
 
-def conductance(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
-    volume_S = volume(G, S)
-    volume_T = volume(G, T)
+def conductance(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
+    volume_S = volume(G, S, weighted=is_weighted)
+    volume_T = volume(G, T, weighted=is_weighted)
     return num_cut_edges / min(volume_S, volume_T)
 
 
-def edge_expansion(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
+def edge_expansion(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
     if T is None:
         Tnvals = S.size - S.nvals
     else:
@@ -63,8 +63,8 @@ def edge_expansion(G, S, T=None):
     return num_cut_edges / min(S.nvals, Tnvals)
 
 
-def mixing_expansion(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
+def mixing_expansion(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
     return num_cut_edges / G._A.nvals  # Why no factor of 2 in denominator?
 
 
diff --git a/graphblas_algorithms/nxapi/cuts.py b/graphblas_algorithms/nxapi/cuts.py
index 8343109..643861c 100644
--- a/graphblas_algorithms/nxapi/cuts.py
+++ b/graphblas_algorithms/nxapi/cuts.py
@@ -35,7 +35,7 @@ def normalized_cut_size(G, S, T=None, weight=None):
         T = (~S.S).new()
     else:
         T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.normalized_cut_size(G, S, T)
+    return algorithms.normalized_cut_size(G, S, T, is_weighted=weight is not None)
 
 
 def conductance(G, S, T=None, weight=None):
@@ -45,21 +45,21 @@ def conductance(G, S, T=None, weight=None):
         T = (~S.S).new()
     else:
         T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.conductance(G, S, T)
+    return algorithms.conductance(G, S, T, is_weighted=weight is not None)
 
 
 def edge_expansion(G, S, T=None, weight=None):
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.edge_expansion(G, S, T)
+    return algorithms.edge_expansion(G, S, T, is_weighted=weight is not None)
 
 
 def mixing_expansion(G, S, T=None, weight=None):
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.mixing_expansion(G, S, T)
+    return algorithms.mixing_expansion(G, S, T, is_weighted=weight is not None)
 
 
 def node_expansion(G, S):
-- 
2.43.0


From 978231cccc00aad779c2372cbbdee3f150083247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 33/83] fix: mixing_expansion divides by twice the number of
 edges

---
 graphblas_algorithms/algorithms/cuts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index 8b3733b..efd8d63 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -65,7 +65,11 @@ def edge_expansion(G, S, T=None, *, is_weighted=False):
 
 def mixing_expansion(G, S, T=None, *, is_weighted=False):
     num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
-    return num_cut_edges / G._A.nvals  # Why no factor of 2 in denominator?
+    num_total_edges = G._A.nvals
+    if not G.is_directed():
+        # Every edge is stored twice except self-edges
+        num_total_edges = (num_total_edges + G.get_property("diag").nvals) // 2
+    return num_cut_edges / (2 * num_total_edges)
 
 
 def node_expansion(G, S):
-- 
2.43.0


From 6e7796f9b4feb73675f1d116f6ba1161f033e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 34/83] fix: edge_boundary with data naming an edge attribute
 gives the values

---
 graphblas_algorithms/nxapi/boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/boundary.py b/graphblas_algorithms/nxapi/boundary.py
index 662cfe4..a49d120 100644
--- a/graphblas_algorithms/nxapi/boundary.py
+++ b/graphblas_algorithms/nxapi/boundary.py
@@ -28,7 +28,7 @@ def edge_boundary(G, nbunch1, nbunch2=None, data=False, keys=False, default=None
             (id_to_key[row] for row in rows),
             (id_to_key[col] for col in cols),
             # Unsure about this; data argument may mean *all* edge attributes
-            ({weight: val} for val in vals),
+            ({weight: val} for val in vals) if data is True else vals,
             strict=True,
         )
     else:
-- 
2.43.0


From 49f4434e98059fabe15319d96c2d560933028a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 35/83] fix: edge_boundary of undirected graphs gives each edge
 once when the node sets overlap

---
 graphblas_algorithms/algorithms/boundary.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/boundary.py b/graphblas_algorithms/algorithms/boundary.py
index b3f964d..7cf060b 100644
--- a/graphblas_algorithms/algorithms/boundary.py
+++ b/graphblas_algorithms/algorithms/boundary.py
@@ -1,4 +1,4 @@
-from graphblas import binary
+from graphblas import binary, select
 from graphblas.semiring import any_pair
 
 __all__ = ["edge_boundary", "node_boundary"]
@@ -17,6 +17,13 @@ def edge_boundary(G, nbunch1, nbunch2=None, *, is_weighted=False):
         B << binary.first(B & nbunch2)
     else:
         B << binary.pair(B & nbunch2)
+    if not G.is_directed():
+        # Edges within both node sets were found in both directions; keep one of them
+        both = binary.pair(nbunch1 & nbunch2).new(name="both")
+        if both.nvals > 1:
+            D = binary.pair(B & both).new(name="duplicates")
+            D << select.tril(binary.pair(both & D), -1)
+            B(~D.S, replace=True) << B
     return B
 
 
-- 
2.43.0


From 2648a13af2d999da41a5771a72a15246b2fd13ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 36/83] fix: union keeps the nodes in the order they are stored

---
 graphblas_algorithms/algorithms/operators/binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index 4c14a11..a2064fc 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -38,8 +38,8 @@ def union(G, H, rename=(), *, name="union"):
     C[: A.nrows, : A.ncols] = A
     C[A.nrows :, A.ncols :] = B
     offset = A.nrows
-    key_to_id = {key: val + offset for key, val in H._key_to_id.items()}
-    key_to_id.update(G._key_to_id)
+    key_to_id = dict(G._key_to_id)
+    key_to_id.update((key, val + offset) for key, val in H._key_to_id.items())
     return type(G)(C, key_to_id=key_to_id)
 
 
-- 
2.43.0


From 657f9cb68c00d84ac22907d7ec27a9e4f13225a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 37/83] fix: compose of graphs with different nodes

---
 .../algorithms/operators/binary.py            | 27 +++++++------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index a2064fc..41636cc 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -125,25 +125,16 @@ def compose(G, H, *, name="compose"):
         C = binary.second(A | B).new(name=name)
         key_to_id = G._key_to_id
     else:
-        keys = sorted(G._key_to_id.keys() & H._key_to_id.keys(), key=G._key_to_id.__getitem__)
-        B = H._A
-        C = Matrix(
-            dtypes.unify(A.dtype, B.dtype),
-            A.nrows + B.nrows - len(keys),
-            A.ncols + B.ncols - len(keys),
-            name=name,
-        )
-        C[: A.nrows, : A.ncols] = A
-        ids1 = G.list_to_ids(keys)
-        ids2 = H.list_to_ids(keys)
-        C[ids1, ids1] = B[ids2, ids2]
+        # Nodes of G, then new nodes of H
         newkeys = sorted(H._key_to_id.keys() - G._key_to_id.keys(), key=H._key_to_id.__getitem__)
-        ids = H.list_to_ids(newkeys)
-        C[A.nrows :, A.ncols :] = B[ids, ids]
-        # Now make new `key_to_id`
-        ids += A.nrows
-        key_to_id = dict(zip(newkeys, ids.tolist(), strict=True))
-        key_to_id.update(G._key_to_id)
+        key_to_id = dict(G._key_to_id)
+        key_to_id.update(zip(newkeys, range(A.nrows, A.nrows + len(newkeys)), strict=True))
+        N = len(key_to_id)
+        C = Matrix(dtypes.unify(A.dtype, B.dtype), N, N, name=name)
+        C[: A.nrows, : A.ncols] = A
+        # Edges of H take precedence over edges of G
+        ids = [key_to_id[key] for key in sorted(H._key_to_id, key=H._key_to_id.__getitem__)]
+        C(binary.second)[ids, ids] << B
     return type(G)(C, key_to_id=key_to_id)
 
 
-- 
2.43.0


From a4b40fd007f6bb048efd04af029fca83fce1c68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 38/83] fix: refuse to combine directed and undirected graphs

---
 graphblas_algorithms/algorithms/operators/binary.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index 41636cc..77d3728 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -18,6 +18,8 @@ def union(G, H, rename=(), *, name="union"):
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
         raise NotImplementedError("Not yet implemented for multigraphs")
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     if rename:
         prefix = rename[0]
         if prefix is not None:
@@ -48,6 +50,8 @@ def disjoint_union(G, H, *, name="disjoint_union"):
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
         raise NotImplementedError("Not yet implemented for multigraphs")
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     A = G._A
     B = H._A
     C = Matrix(dtypes.unify(A.dtype, B.dtype), A.nrows + B.nrows, A.ncols + B.ncols, name=name)
@@ -61,6 +65,8 @@ def intersection(G, H, *, name="intersection"):
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
         raise NotImplementedError("Not yet implemented for multigraphs")
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     keys = sorted(G._key_to_id.keys() & H._key_to_id.keys(), key=G._key_to_id.__getitem__)
     ids = G.list_to_ids(keys)
     A = G._A[ids, ids].new()
@@ -114,6 +120,8 @@ def compose(G, H, *, name="compose"):
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
         raise NotImplementedError("Not yet implemented for multigraphs")
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     A = G._A
     B = H._A
     if G._key_to_id.keys() == H._key_to_id.keys():
-- 
2.43.0


From 13436f119736317656f95bc8306f3d258f469cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 39/83] fix: reverse of a graph with copy=False

---
 graphblas_algorithms/classes/digraph.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index b9e15a8..ff1e441 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -611,9 +611,8 @@ class DiGraph(Graph):
 
     def reverse(self, copy=True):
         # We could even reuse many of the cached values
-        A = self._A.T  # This probably mostly works, but does not yet support assignment
-        if copy:
-            A = A.new()
+        # `self._A.T` (when `copy` is False) is not accepted as adjacency matrix, so always copy
+        A = self._A.T.new()
         rv = type(self)(A, key_to_id=self._key_to_id)
         rv.graph.update(deepcopy(self.graph))
         return rv
-- 
2.43.0


From 3bf13036ad7fda93cde8575c0913f9ee077461e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:33 +0000
Subject: [PATCH 40/83] fix: compose with a graph without nodes

---
 graphblas_algorithms/algorithms/operators/binary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index 77d3728..2db8506 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -142,7 +142,8 @@ def compose(G, H, *, name="compose"):
         C[: A.nrows, : A.ncols] = A
         # Edges of H take precedence over edges of G
         ids = [key_to_id[key] for key in sorted(H._key_to_id, key=H._key_to_id.__getitem__)]
-        C(binary.second)[ids, ids] << B
+        if ids:
+            C(binary.second)[ids, ids] << B
     return type(G)(C, key_to_id=key_to_id)
 
 
-- 
2.43.0


From 8d6617a96960e64229258c33043e8726cd240812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 41/83] fix: to_undirected gives a symmetric matrix when
 reciprocal edges differ

---
 graphblas_algorithms/classes/digraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index ff1e441..c170dfe 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -607,6 +607,9 @@ class DiGraph(Graph):
             B = binary.any(A & A.T).new(name=name)
         else:
             B = binary.any(A | A.T).new(name=name)
+        # Reciprocal edges may have different values, so mirror the upper triangle
+        U = select.triu(B).new(name="U")
+        B << binary.any(U | U.T)
         return Graph(B, key_to_id=self._key_to_id)
 
     def reverse(self, copy=True):
-- 
2.43.0


From e7592dd6a88e6a5703013821e579449198df0263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 42/83] fix: graphs without edges are regular

---
 graphblas_algorithms/algorithms/regular.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/regular.py b/graphblas_algorithms/algorithms/regular.py
index cf3a057..1d0914b 100644
--- a/graphblas_algorithms/algorithms/regular.py
+++ b/graphblas_algorithms/algorithms/regular.py
@@ -7,12 +7,12 @@ def is_regular(G):
     if not G.is_directed():
         degrees = G.get_property("degrees+")
         if degrees.nvals != degrees.size:
-            return False
+            return degrees.nvals == 0  # Every degree is 0
         d = degrees.get(0)
         return (degrees == d).reduce(monoid.land).get(True)
     row_degrees = G.get_property("row_degrees+")
     if row_degrees.nvals != row_degrees.size:
-        return False
+        return row_degrees.nvals == 0  # Every degree is 0
     column_degrees = G.get_property("column_degrees+")
     if column_degrees.nvals != column_degrees.size:
         return False
@@ -26,5 +26,5 @@ def is_regular(G):
 def is_k_regular(G, k):
     degrees = G.get_property("degrees+")
     if degrees.nvals != degrees.size:
-        return False
+        return degrees.nvals == 0 and k == 0
     return (degrees == k).reduce(monoid.land).get(True)
-- 
2.43.0


From da3d552e31b2424aa2c8051401f96ecc07a7fa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 43/83] fix: s_metric counts every edge of directed graphs, and
 self-edges, once

---
 graphblas_algorithms/algorithms/smetric.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/algorithms/smetric.py b/graphblas_algorithms/algorithms/smetric.py
index e2e85bb..46c9b9b 100644
--- a/graphblas_algorithms/algorithms/smetric.py
+++ b/graphblas_algorithms/algorithms/smetric.py
@@ -6,9 +6,11 @@ __all__ = ["s_metric"]
 def s_metric(G):
     if G.is_directed():
         degrees = G.get_property("total_degrees+")
+        A = G._A
     else:
-        degrees = G.get_property("degrees+")
-    return (binary.first(degrees & G._A) @ degrees).reduce().get(0) / 2
+        # Each edge once
+        A, degrees = G.get_properties("U+ degrees+")
+    return float((binary.first(degrees & A) @ degrees).reduce().get(0))
     # Alternatives
-    # return (degrees @ binary.second(G._A & degrees)).reduce().get(0) / 2
-    # return degrees.outer(degrees).new(mask=G._A.S).reduce_scalar().get(0) / 2
+    # return float((degrees @ binary.second(A & degrees)).reduce().get(0))
+    # return float(degrees.outer(degrees).new(mask=A.S).reduce_scalar().get(0))
-- 
2.43.0


From 5a914dee7be217f4ce5fbd291b67332bbd686502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 44/83] fix: fast_could_be_isomorphic is not implemented for
 directed graphs

---
 graphblas_algorithms/nxapi/isomorphism/isomorph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/nxapi/isomorphism/isomorph.py b/graphblas_algorithms/nxapi/isomorphism/isomorph.py
index 1dedb64..4aef89c 100644
--- a/graphblas_algorithms/nxapi/isomorphism/isomorph.py
+++ b/graphblas_algorithms/nxapi/isomorphism/isomorph.py
@@ -1,5 +1,6 @@
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
+from graphblas_algorithms.utils import not_implemented_for
 
 __all__ = [
     "fast_could_be_isomorphic",
@@ -7,6 +8,7 @@ __all__ = [
 ]
 
 
+@not_implemented_for("directed")
 def fast_could_be_isomorphic(G1, G2):
     G1 = to_graph(G1)
     G2 = to_graph(G2)
-- 
2.43.0


From 704b9860775efde9bc84edca93bae52e8633ef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 45/83] fix: tournament_matrix of graphs with boolean or
 unsigned values

---
 graphblas_algorithms/algorithms/tournament.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/tournament.py b/graphblas_algorithms/algorithms/tournament.py
index 32624ff..6ea67fd 100644
--- a/graphblas_algorithms/algorithms/tournament.py
+++ b/graphblas_algorithms/algorithms/tournament.py
@@ -1,5 +1,5 @@
 import numpy as np
-from graphblas import select
+from graphblas import dtypes, select
 
 __all__ = ["is_tournament", "score_sequence", "tournament_matrix"]
 
@@ -23,5 +23,7 @@ def score_sequence(G):
 
 
 def tournament_matrix(G):
+    # The result has negative values, so don't use boolean or unsigned dtypes
     A = G._A
+    A = A.dup(dtypes.unify(A.dtype, dtypes.INT8))
     return (A - A.T).new(name="tournament_matrix")
-- 
2.43.0


From 6aa9204501a373e09a594fd397f2c51b0ab91ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 46/83] fix: intra_community_edges and inter_community_edges
 count each undirected edge once

---
 graphblas_algorithms/algorithms/community/quality.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/community/quality.py b/graphblas_algorithms/algorithms/community/quality.py
index d2b1d95..f00d665 100644
--- a/graphblas_algorithms/algorithms/community/quality.py
+++ b/graphblas_algorithms/algorithms/community/quality.py
@@ -4,7 +4,8 @@ __all__ = ["intra_community_edges", "inter_community_edges"]
 
 
 def intra_community_edges(G, partition):
-    A = G._A
+    # Each edge of undirected graphs once
+    A = G._A if G.is_directed() else G.get_property("L+")
     count = 0
     for block in partition:
         # is A or A.T faster?
@@ -13,7 +14,8 @@ def intra_community_edges(G, partition):
 
 
 def inter_community_edges(G, partition):
-    A = G._A
+    # Each edge of undirected graphs once
+    A = G._A if G.is_directed() else G.get_property("L+")
     count = 0
     for block in partition:
         # is A or A.T faster?
-- 
2.43.0


From 2d6010c8b051d1d179d8af78134d6d03b01788eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 47/83] fix: is_isolate raises NetworkXError for a missing node

---
 graphblas_algorithms/nxapi/isolate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphblas_algorithms/nxapi/isolate.py b/graphblas_algorithms/nxapi/isolate.py
index 728e9d8..2b6e0c7 100644
--- a/graphblas_algorithms/nxapi/isolate.py
+++ b/graphblas_algorithms/nxapi/isolate.py
@@ -1,11 +1,15 @@
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
 
+from .exception import NetworkXError
+
 __all__ = ["is_isolate", "isolates", "number_of_isolates"]
 
 
 def is_isolate(G, n):
     G = to_graph(G)
+    if n not in G:
+        raise NetworkXError(f"Node {n} is not in the graph.")
     return algorithms.is_isolate(G, n)
 
 
-- 
2.43.0


From f3206233692704a5ee363faa1b4166e393f3fb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 48/83] fix: handle nodes that are not in the graph like
 NetworkX in cluster and reciprocity functions

---
 graphblas_algorithms/nxapi/_utils.py      | 12 ++++++++++++
 graphblas_algorithms/nxapi/cluster.py     | 12 ++++++------
 graphblas_algorithms/nxapi/reciprocity.py |  3 ++-
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/graphblas_algorithms/nxapi/_utils.py b/graphblas_algorithms/nxapi/_utils.py
index 3aa3586..0848bd7 100644
--- a/graphblas_algorithms/nxapi/_utils.py
+++ b/graphblas_algorithms/nxapi/_utils.py
@@ -13,6 +13,8 @@ except ImportError:
                 prev = cur
 
 
+from .exception import NetworkXError
+
 BYTES_UNITS = {
     "": 1,
     "b": 1,
@@ -125,3 +127,13 @@ def split_evenly(k, L):
             start = stop
     if stop != N:
         yield L[stop:]
+
+
+def nbunch(G, nodes):
+    """Like ``G.nbunch_iter(nodes)`` of NetworkX: silently ignore nodes that are not in the graph."""
+    if nodes is None:
+        return None
+    try:
+        return [n for n in nodes if n in G]
+    except TypeError as e:
+        raise NetworkXError("nbunch is not a node or a sequence of nodes.") from e
diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 3adbe4c..d84f0ac 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -6,7 +6,7 @@ from graphblas_algorithms.classes.graph import to_undirected_graph
 from graphblas_algorithms.classes.nodemap import VectorMap
 from graphblas_algorithms.utils import not_implemented_for
 
-from ._utils import normalize_chunksize, partition
+from ._utils import nbunch, normalize_chunksize, partition
 
 __all__ = [
     "triangles",
@@ -25,7 +25,7 @@ def triangles(G, nodes=None):
         return {}
     if nodes in G:
         return algorithms.single_triangle(G, nodes)
-    mask = G.list_to_mask(nodes)
+    mask = G.list_to_mask(nbunch(G, nodes))
     result = algorithms.triangles(G, mask=mask)
     return G.vector_to_nodemap(result, mask=mask, fill_value=0)
 
@@ -51,7 +51,7 @@ def clustering(G, nodes=None, weight=None):
         if G.is_directed():
             return algorithms.single_clustering_directed(G, nodes, weighted=weighted)
         return algorithms.single_clustering(G, nodes, weighted=weighted)
-    mask = G.list_to_mask(nodes)
+    mask = G.list_to_mask(nbunch(G, nodes))
     if G.is_directed():
         result = algorithms.clustering_directed(G, weighted=weighted, mask=mask)
     else:
@@ -65,7 +65,7 @@ def average_clustering(G, nodes=None, weight=None, count_zeros=True):
         raise ZeroDivisionError
     # There is no maximum weight to scale by (and no triangle) if all edges are self-edges
     weighted = weight is not None and not G.get_property("max_element-").is_empty
-    mask = G.list_to_mask(nodes)
+    mask = G.list_to_mask(nbunch(G, nodes))
     if G.is_directed():
         func = algorithms.average_clustering_directed
     else:
@@ -118,7 +118,7 @@ def square_clustering(G, nodes=None, *, chunksize="256 MiB"):
     if nodes in G:
         idx = G._key_to_id[nodes]
         return algorithms.single_square_clustering(G, idx)
-    nodes = list(nodes)
+    nodes = nbunch(G, nodes)
     ids = G.list_to_ids(nodes)
     if chunksize is None:
         result = algorithms.square_clustering(G, ids)
@@ -135,7 +135,7 @@ def generalized_degree(G, nodes=None):
     if nodes in G:
         result = algorithms.single_generalized_degree(G, nodes)
         return VectorMap(result)
-    mask = G.list_to_mask(nodes)
+    mask = G.list_to_mask(nbunch(G, nodes))
     result = algorithms.generalized_degree(G, mask=mask)
     if mask is None:
         rows = Vector.from_scalar(1, len(G))
diff --git a/graphblas_algorithms/nxapi/reciprocity.py b/graphblas_algorithms/nxapi/reciprocity.py
index 54192e5..4c32d78 100644
--- a/graphblas_algorithms/nxapi/reciprocity.py
+++ b/graphblas_algorithms/nxapi/reciprocity.py
@@ -2,6 +2,7 @@ from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_directed_graph
 from graphblas_algorithms.utils import not_implemented_for
 
+from ._utils import nbunch
 from .exception import NetworkXError
 
 __all__ = ["reciprocity", "overall_reciprocity"]
@@ -19,7 +20,7 @@ def reciprocity(G, nodes=None):
         if rv is None:
             raise NetworkXError("Not defined for isolated nodes.")
         return rv
-    mask = G.list_to_mask(nodes)
+    mask = G.list_to_mask(nbunch(G, nodes))
     result = algorithms.reciprocity(G, mask=mask)
     return G.vector_to_nodemap(result, mask=mask)
 
-- 
2.43.0


From e9195daabbb867c81a59e0d6d583a8090d02ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 49/83] fix: linear algebra matrices of graphs with boolean or
 unsigned values

---
 graphblas_algorithms/linalg/bethehessianmatrix.py |  8 ++++++--
 graphblas_algorithms/linalg/laplacianmatrix.py    | 14 ++++++++++++--
 graphblas_algorithms/linalg/modularitymatrix.py   |  7 +++++--
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/graphblas_algorithms/linalg/bethehessianmatrix.py b/graphblas_algorithms/linalg/bethehessianmatrix.py
index edd000f..4de87f8 100644
--- a/graphblas_algorithms/linalg/bethehessianmatrix.py
+++ b/graphblas_algorithms/linalg/bethehessianmatrix.py
@@ -1,16 +1,20 @@
-from graphblas import Vector, binary
+from graphblas import Vector, binary, unary
 
 __all__ = ["bethe_hessian_matrix"]
 
 
 def bethe_hessian_matrix(G, r=None, nodelist=None, *, name="bethe_hessian_matrix"):
     A = G._A
+    is_bool = A.dtype.np_type.kind == "b"
+    if is_bool:
+        # Add booleans as numbers
+        A = unary.one[int](A).new()
     if nodelist is not None:
         ids = G.list_to_ids(nodelist)
         A = A[ids, ids].new()
         d = A.reduce_rowwise().new(name="d")
     else:
-        d = G.get_property("plus_rowwise+")
+        d = G.get_property("degrees+" if is_bool else "plus_rowwise+")
     if r is None:
         degrees = G.get_property("degrees+")
         k = degrees.reduce().get(0)
diff --git a/graphblas_algorithms/linalg/laplacianmatrix.py b/graphblas_algorithms/linalg/laplacianmatrix.py
index 18ed65a..3993006 100644
--- a/graphblas_algorithms/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/linalg/laplacianmatrix.py
@@ -10,17 +10,27 @@ def _laplacian_helper(G, nodelist=None, is_weighted=False):
     if G.is_multigraph():
         is_weighted = True  # XXX
     A = G._A
+    kind = A.dtype.np_type.kind
+    if kind == "b":
+        # Add booleans as numbers
+        is_weighted = False
     if nodelist is not None:
         ids = G.list_to_ids(nodelist)
         A = A[ids, ids].new()
         if not is_weighted:
-            A << unary.one(A)
+            A = unary.one[int](A).new()
+        elif kind == "u":
+            A = A.dup(int)
+        d = A.reduce_rowwise(monoid.plus).new()
+    elif is_weighted and kind == "u":
+        # Don't subtract unsigned numbers
+        A = A.dup(int)
         d = A.reduce_rowwise(monoid.plus).new()
     elif is_weighted:
         d = G.get_property("plus_rowwise+")
     else:
         d = G.get_property("degrees+")
-        A = unary.one(A).new()
+        A = unary.one[int](A).new()
     return d, A
 
 
diff --git a/graphblas_algorithms/linalg/modularitymatrix.py b/graphblas_algorithms/linalg/modularitymatrix.py
index 1efff65..d957580 100644
--- a/graphblas_algorithms/linalg/modularitymatrix.py
+++ b/graphblas_algorithms/linalg/modularitymatrix.py
@@ -18,17 +18,20 @@ def directed_modularity_matrix(
     G, nodelist=None, is_weighted=False, *, name="directed_modularity_matrix"
 ):
     A = G._A
+    if A.dtype.np_type.kind == "b":
+        # Add booleans as numbers
+        is_weighted = False
     if nodelist is not None:
         ids = G.list_to_ids(nodelist)
         A = A[ids, ids].new()
         if not is_weighted:
-            A << unary.one(A)
+            A = unary.one[int](A).new()
         k_out = A.reduce_rowwise(monoid.plus).new()
         k_in = A.reduce_columnwise(monoid.plus).new()
     elif is_weighted:
         k_out, k_in = G.get_properties("plus_rowwise+ plus_columnwise+")
     else:
-        A = unary.one(A).new()
+        A = unary.one[int](A).new()
         k_out, k_in = G.get_properties("row_degrees+ column_degrees+")
     m = k_out.reduce().get(0)
     X = k_out.outer(k_in).new(float, name=name)
-- 
2.43.0


From 8eef9262a3578d0c8e4038642ffd234a2ac19cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 50/83] fix: normalized_laplacian_matrix of graphs with nodes
 whose weights sum to zero

---
 graphblas_algorithms/linalg/laplacianmatrix.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/linalg/laplacianmatrix.py b/graphblas_algorithms/linalg/laplacianmatrix.py
index 3993006..57d6e51 100644
--- a/graphblas_algorithms/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/linalg/laplacianmatrix.py
@@ -1,4 +1,4 @@
-from graphblas import monoid, unary
+from graphblas import monoid, select, unary
 
 __all__ = [
     "laplacian_matrix",
@@ -44,12 +44,10 @@ def normalized_laplacian_matrix(
     G, nodelist=None, is_weighted=False, *, name="normalized_laplacian_matrix"
 ):
     d, A = _laplacian_helper(G, nodelist, is_weighted)
+    d = select.valuene(d, 0).new(name="d")  # Nodes with degree 0 have no values in the result
     d_invsqrt = unary.sqrt(d).new(name="d_invsqrt")
     d_invsqrt << unary.minv(d_invsqrt)
 
-    # XXX: what if `d` is 0 and `d_invsqrt` is infinity? (not tested)
-    # d_invsqrt(unary.isinf(d_invsqrt)) << 0
-
     # Calculate: A_weighted = D_invsqrt @ A @ D_invsqrt
     A_weighted = d_invsqrt.outer(d_invsqrt).new(mask=A.S, name=name)
     A_weighted *= A
-- 
2.43.0


From 6338f445bf80430305723c6a2ff8f9bd53eb912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 51/83] fix: linear algebra matrices raise NetworkXError for
 empty graphs and bad node lists

---
 graphblas_algorithms/nxapi/_utils.py              | 15 +++++++++++++++
 .../nxapi/linalg/bethehessianmatrix.py            |  3 +++
 graphblas_algorithms/nxapi/linalg/graphmatrix.py  |  3 +++
 .../nxapi/linalg/laplacianmatrix.py               |  4 ++++
 .../nxapi/linalg/modularitymatrix.py              |  4 ++++
 5 files changed, 29 insertions(+)

diff --git a/graphblas_algorithms/nxapi/_utils.py b/graphblas_algorithms/nxapi/_utils.py
index 0848bd7..322826b 100644
--- a/graphblas_algorithms/nxapi/_utils.py
+++ b/graphblas_algorithms/nxapi/_utils.py
@@ -137,3 +137,18 @@ def nbunch(G, nodes):
         return [n for n in nodes if n in G]
     except TypeError as e:
         raise NetworkXError("nbunch is not a node or a sequence of nodes.") from e
+
+
+def check_nodelist(G, nodelist):
+    """Raise ``NetworkXError`` if no matrix can be made for the nodes like NetworkX does."""
+    if len(G) == 0:
+        raise NetworkXError("Graph has no nodes or edges")
+    if nodelist is None:
+        return
+    if len(nodelist) == 0:
+        raise NetworkXError("nodelist has no nodes")
+    for n in nodelist:
+        if n not in G:
+            raise NetworkXError(f"Node {n} in nodelist is not in G")
+    if len(set(nodelist)) != len(nodelist):
+        raise NetworkXError("nodelist contains duplicates.")
diff --git a/graphblas_algorithms/nxapi/linalg/bethehessianmatrix.py b/graphblas_algorithms/nxapi/linalg/bethehessianmatrix.py
index 7fa30b4..336e0a8 100644
--- a/graphblas_algorithms/nxapi/linalg/bethehessianmatrix.py
+++ b/graphblas_algorithms/nxapi/linalg/bethehessianmatrix.py
@@ -2,6 +2,8 @@ from graphblas_algorithms import linalg
 from graphblas_algorithms.classes.graph import to_undirected_graph
 from graphblas_algorithms.utils import not_implemented_for
 
+from .._utils import check_nodelist
+
 __all__ = ["bethe_hessian_matrix"]
 
 
@@ -9,4 +11,5 @@ __all__ = ["bethe_hessian_matrix"]
 @not_implemented_for("multigraph")
 def bethe_hessian_matrix(G, r=None, nodelist=None):
     G = to_undirected_graph(G)
+    check_nodelist(G, nodelist)
     return linalg.bethe_hessian_matrix(G, r=r, nodelist=nodelist)
diff --git a/graphblas_algorithms/nxapi/linalg/graphmatrix.py b/graphblas_algorithms/nxapi/linalg/graphmatrix.py
index 0b3e7d9..5ab6408 100644
--- a/graphblas_algorithms/nxapi/linalg/graphmatrix.py
+++ b/graphblas_algorithms/nxapi/linalg/graphmatrix.py
@@ -1,9 +1,12 @@
 from graphblas_algorithms import linalg
 from graphblas_algorithms.classes.digraph import to_graph
 
+from .._utils import check_nodelist
+
 __all__ = ["adjacency_matrix"]
 
 
 def adjacency_matrix(G, nodelist=None, dtype=None, weight="weight"):
     G = to_graph(G, weight=weight, dtype=dtype)
+    check_nodelist(G, nodelist)
     return linalg.adjacency_matrix(G, nodelist, dtype, is_weighted=weight is not None)
diff --git a/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py b/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
index 752ca1e..c487367 100644
--- a/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
@@ -1,14 +1,18 @@
 from graphblas_algorithms import linalg
 from graphblas_algorithms.classes.digraph import to_graph
 
+from .._utils import check_nodelist
+
 __all__ = ["laplacian_matrix", "normalized_laplacian_matrix"]
 
 
 def laplacian_matrix(G, nodelist=None, weight="weight"):
     G = to_graph(G, weight=weight)
+    check_nodelist(G, nodelist)
     return linalg.laplacian_matrix(G, nodelist, is_weighted=weight is not None)
 
 
 def normalized_laplacian_matrix(G, nodelist=None, weight="weight"):
     G = to_graph(G, weight=weight)
+    check_nodelist(G, nodelist)
     return linalg.normalized_laplacian_matrix(G, nodelist, is_weighted=weight is not None)
diff --git a/graphblas_algorithms/nxapi/linalg/modularitymatrix.py b/graphblas_algorithms/nxapi/linalg/modularitymatrix.py
index 76e160f..fde0ec1 100644
--- a/graphblas_algorithms/nxapi/linalg/modularitymatrix.py
+++ b/graphblas_algorithms/nxapi/linalg/modularitymatrix.py
@@ -3,6 +3,8 @@ from graphblas_algorithms.classes.digraph import to_directed_graph
 from graphblas_algorithms.classes.graph import to_undirected_graph
 from graphblas_algorithms.utils import not_implemented_for
 
+from .._utils import check_nodelist
+
 __all__ = ["modularity_matrix", "directed_modularity_matrix"]
 
 
@@ -10,6 +12,7 @@ __all__ = ["modularity_matrix", "directed_modularity_matrix"]
 @not_implemented_for("multigraph")
 def modularity_matrix(G, nodelist=None, weight=None):
     G = to_undirected_graph(G, weight=weight)
+    check_nodelist(G, nodelist)
     return linalg.modularity_matrix(G, nodelist, is_weighted=weight is not None)
 
 
@@ -17,4 +20,5 @@ def modularity_matrix(G, nodelist=None, weight=None):
 @not_implemented_for("multigraph")
 def directed_modularity_matrix(G, nodelist=None, weight=None):
     G = to_directed_graph(G, weight=weight)
+    check_nodelist(G, nodelist)
     return linalg.directed_modularity_matrix(G, nodelist, is_weighted=weight is not None)
-- 
2.43.0


From da28b6b36b485c1755fbf42eb5b82611d87f572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 52/83] fix: unweighted laplacian matrices of directed graphs

---
 graphblas_algorithms/linalg/laplacianmatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/linalg/laplacianmatrix.py b/graphblas_algorithms/linalg/laplacianmatrix.py
index 57d6e51..d0763f9 100644
--- a/graphblas_algorithms/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/linalg/laplacianmatrix.py
@@ -29,7 +29,7 @@ def _laplacian_helper(G, nodelist=None, is_weighted=False):
     elif is_weighted:
         d = G.get_property("plus_rowwise+")
     else:
-        d = G.get_property("degrees+")
+        d = G.get_property("row_degrees+")
         A = unary.one[int](A).new()
     return d, A
 
-- 
2.43.0


From c895f68745312af43be3f0ae37995ebb4b70f398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 53/83] fix: pagerank of a graph without edges

---
 graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 7391dbe..05cf993 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -22,7 +22,7 @@ def pagerank(
 ) -> Vector:
     A = G._A
     N = A.nrows
-    if A.nvals == 0:
+    if N == 0:
         return Vector(float, N, name=name)
 
     # Initial vector
-- 
2.43.0


From 9339678de53dadbe65d7c2b3891046193868c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 54/83] fix: pagerank and google_matrix treat nodes with zero
 total weight as dangling, and google_matrix the nodes of a permuted nodelist
 by label

---
 .../algorithms/link_analysis/pagerank_alg.py           | 10 +++++-----
 .../nxapi/link_analysis/pagerank_alg.py                |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 05cf993..f93ba43 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -48,7 +48,8 @@ def pagerank(
     # Fold alpha constant into S
     if row_degrees is None:
         row_degrees = G.get_property("plus_rowwise+")  # XXX: What about self-edges?
-    S = (alpha / row_degrees).new(name="S")
+    # Nodes whose weights sum to zero are dangling too
+    S = (alpha / row_degrees.select("!=", 0).new()).new(name="S")
 
     if (iso_value := G.get_property("iso_value")) is not None:
         # Fold iso-value of A into S
@@ -130,10 +131,9 @@ def google_matrix(
             raise ZeroDivisionError("personalization sums to 0")
         p = (personalization / denom).new(mask=personalization.V, name="p")
 
-    if ids is None or len(ids) == len(G):
-        nonempty_rows = G.get_property("any_rowwise+")  # XXX: What about self-edges?
-    else:
-        nonempty_rows = A.reduce_rowwise(monoid.any).new(name="nonempty_rows")
+    # Nodes whose weights sum to zero are dangling too.  XXX: What about self-edges?
+    nonempty_rows = A.reduce_rowwise(monoid.plus).new(name="nonempty_rows")
+    nonempty_rows << nonempty_rows.select("!=", 0)
 
     is_dangling = nonempty_rows.nvals < N
     if is_dangling:
diff --git a/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py b/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
index 22e977e..9ff7d65 100644
--- a/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
@@ -24,7 +24,7 @@ def pagerank(
     x = G.dict_to_vector(nstart, dtype=float, name="nstart")
     p = G.dict_to_vector(personalization, dtype=float, name="personalization")
     row_degrees = G.get_property("plus_rowwise+")  # XXX: What about self-edges?
-    if dangling is not None and row_degrees.nvals < N:
+    if dangling is not None:
         dangling_weights = G.dict_to_vector(dangling, dtype=float, name="dangling")
     else:
         dangling_weights = None
@@ -50,7 +50,7 @@ def google_matrix(
 ):
     G = to_graph(G, weight=weight, dtype=float)
     p = G.dict_to_vector(personalization, dtype=float, name="personalization")
-    if dangling is not None and G.get_property("row_degrees+").nvals < len(G):
+    if dangling is not None:
         dangling_weights = G.dict_to_vector(dangling, dtype=float, name="dangling")
     else:
         dangling_weights = None
-- 
2.43.0


From c8a21cd95e18fadd409fa817eb7454a563ffb2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 55/83] fix: google_matrix raises NetworkXError for a bad
 nodelist

---
 graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py b/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
index 9ff7d65..345ce3c 100644
--- a/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
@@ -1,6 +1,7 @@
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
 
+from .._utils import check_nodelist
 from ..exception import PowerIterationFailedConvergence
 
 _all = ["pagerank", "google_matrix"]
@@ -49,6 +50,8 @@ def google_matrix(
     G, alpha=0.85, personalization=None, nodelist=None, weight="weight", dangling=None
 ):
     G = to_graph(G, weight=weight, dtype=float)
+    if len(G) > 0:
+        check_nodelist(G, nodelist)
     p = G.dict_to_vector(personalization, dtype=float, name="personalization")
     if dangling is not None:
         dangling_weights = G.dict_to_vector(dangling, dtype=float, name="dangling")
-- 
2.43.0


From 82fe70331e0b3be70647a4c55af4b6d82b7b9578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 56/83] fix: dict_to_vector of an empty dict

---
 graphblas_algorithms/classes/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index 34c0caf..60895dc 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -60,6 +60,8 @@ def dict_to_vector(self, d, *, size=None, dtype=None, name=None):
         return None
     if size is None:
         size = len(self)
+    if not d:
+        return Vector(dtype if dtype is not None else float, size, name=name)
     key_to_id = self._key_to_id
     indices, values = zip(*((key_to_id[key], val) for key, val in d.items()), strict=True)
     return Vector.from_coo(indices, values, size=size, dtype=dtype, name=name)
-- 
2.43.0


From 1298affb293fbba5073e8210a3974d21ade94349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 57/83] fix: pagerank with nstart or personalization for some
 of the nodes

---
 graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index f93ba43..db5d3e2 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -34,6 +34,7 @@ def pagerank(
         if denom == 0:
             raise ZeroDivisionError("nstart sums to 0")
         x << nstart / denom
+        x(mask=~x.S) << 0.0
 
     # Personalization vector or scalar
     if personalization is None:
@@ -43,6 +44,7 @@ def pagerank(
         if denom == 0:
             raise ZeroDivisionError("personalization sums to 0")
         p = (personalization / denom).new(name="p")
+        p(mask=~p.S) << 0.0
 
     # Inverse of row_degrees
     # Fold alpha constant into S
-- 
2.43.0


From b4af0e3eb31d5f9b41775d83fbc2d3487d508238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 58/83] fix: pagerank of boolean adjacency matrices

---
 graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index db5d3e2..c2b0882 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -24,6 +24,10 @@ def pagerank(
     N = A.nrows
     if N == 0:
         return Vector(float, N, name=name)
+    if A.dtype == "BOOL":
+        # The sum of booleans is a boolean
+        A = A.dup(float)
+        row_degrees = A.reduce_rowwise(monoid.plus).new()
 
     # Initial vector
     x = Vector(float, N, name="x")
-- 
2.43.0


From 83313f8fdd0b04773de3c1c5190ecb2300f6c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 59/83] fix: katz_centrality of nodes without incoming edges

---
 graphblas_algorithms/algorithms/centrality/katz.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/centrality/katz.py b/graphblas_algorithms/algorithms/centrality/katz.py
index 8087e85..df831dc 100644
--- a/graphblas_algorithms/algorithms/centrality/katz.py
+++ b/graphblas_algorithms/algorithms/centrality/katz.py
@@ -41,12 +41,14 @@ def katz_centrality(
 
     # Power iteration: make up to max_iter iterations
     xprev = Vector(float, N, name="x_prev")
+    w = Vector(float, N, name="w")
     for _i in range(max_iter):
         xprev, x = x, xprev
         # x << alpha * semiring(xprev @ A) + beta
-        x << semiring(xprev @ A)
-        x *= alpha
-        x += b
+        w << semiring(xprev @ A)
+        w *= alpha
+        x << b
+        x += w
         if is_converged(xprev, x, tol):  # sum(abs(xprev - x)) < N * tol
             x.name = name
             if normalized:
-- 
2.43.0


From 13ea6edd5b98f6ee2cd3870606a0b1ce3b43c26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 60/83] fix: katz_centrality raises NetworkXError when beta has
 unknown nodes

---
 graphblas_algorithms/nxapi/centrality/katz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/centrality/katz.py b/graphblas_algorithms/nxapi/centrality/katz.py
index 2611a59..6b84263 100644
--- a/graphblas_algorithms/nxapi/centrality/katz.py
+++ b/graphblas_algorithms/nxapi/centrality/katz.py
@@ -27,7 +27,7 @@ def katz_centrality(
     except (TypeError, ValueError):
         try:
             b = G.dict_to_vector(beta, dtype=float, name="beta")
-        except (TypeError, ValueError, AttributeError) as e:
+        except (TypeError, ValueError, AttributeError, KeyError) as e:
             raise NetworkXError(*e.args) from e
     try:
         result = algorithms.katz_centrality(
-- 
2.43.0


From bf0a7f2302919685aa8fbcdcae369e44eb0fd678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 61/83] fix: google_matrix of an empty graph raises
 NetworkXError for unknown nodes

---
 graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py b/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
index 345ce3c..d18824f 100644
--- a/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
@@ -50,7 +50,7 @@ def google_matrix(
     G, alpha=0.85, personalization=None, nodelist=None, weight="weight", dangling=None
 ):
     G = to_graph(G, weight=weight, dtype=float)
-    if len(G) > 0:
+    if len(G) > 0 or nodelist:
         check_nodelist(G, nodelist)
     p = G.dict_to_vector(personalization, dtype=float, name="personalization")
     if dangling is not None:
-- 
2.43.0


From 69a2e89e3ded13d388525393bea702e90938d871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 62/83] fix: result mappings: `in` and `get` of keys that are
 not nodes

---
 graphblas_algorithms/classes/nodemap.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 2a32502..2d93458 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -70,7 +70,9 @@ class NodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
+        idx = self._key_to_id.get(key)
+        if idx is None:
+            return False
         return self._fill_value is not None or idx in self.vector
 
     def __eq__(self, other):
@@ -88,7 +90,9 @@ class NodeMap(MutableMapping):
         self._fill_value = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
+        idx = self._key_to_id.get(key)
+        if idx is None:
+            return default
         rv = self.vector.get(idx)
         if rv is None:
             if self._fill_value is not None:
@@ -270,8 +274,8 @@ class VectorNodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
-        return idx in self._get_rows()
+        idx = self._key_to_id.get(key)
+        return idx is not None and idx in self._get_rows()
 
     def __eq__(self, other):
         if isinstance(other, VectorNodeMap):
@@ -283,8 +287,8 @@ class VectorNodeMap(MutableMapping):
         self._rows = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
-        if self._get_rows().get(idx) is None:
+        idx = self._key_to_id.get(key)
+        if idx is None or self._get_rows().get(idx) is None:
             return default
         return VectorMap(self.matrix[idx, :].new())
 
@@ -395,7 +399,9 @@ class NodeNodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
+        idx = self._key_to_id.get(key)
+        if idx is None:
+            return False
         return self._fill_value is not None or idx in self._get_rows()
 
     def __eq__(self, other):
@@ -414,8 +420,8 @@ class NodeNodeMap(MutableMapping):
         self._fill_value = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
-        if self._fill_value is None and self._get_rows().get(idx) is None:
+        idx = self._key_to_id.get(key)
+        if idx is None or self._fill_value is None and self._get_rows().get(idx) is None:
             return default
         self.vector_to_nodemap(
             self.matrix[idx, :].new(),
-- 
2.43.0


From 29f69e8ae5e77fdff57235eb52cfc9053791bbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 63/83] fix: NodeNodeMap.get returns the value

---
 graphblas_algorithms/classes/nodemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 2d93458..0831185 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -423,7 +423,7 @@ class NodeNodeMap(MutableMapping):
         idx = self._key_to_id.get(key)
         if idx is None or self._fill_value is None and self._get_rows().get(idx) is None:
             return default
-        self.vector_to_nodemap(
+        return self.vector_to_nodemap(
             self.matrix[idx, :].new(),
             fill_value=self._fill_value,
             values_are_keys=self._values_are_keys,
-- 
2.43.0


From d7c9e6f58e8657a93708fc75ed214bc23c64015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 64/83] fix: VectorMap raises KeyError for missing keys

---
 graphblas_algorithms/classes/nodemap.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 0831185..b1c62f2 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -1,5 +1,6 @@
 from collections.abc import MutableMapping
 
+import numpy as np
 from graphblas import Vector, monoid
 
 from . import _utils
@@ -137,11 +138,18 @@ class VectorMap(MutableMapping):
     def __init__(self, v):
         self.vector = v
 
+    def _is_index(self, key):
+        return isinstance(key, (int, np.integer)) and 0 <= key < self.vector.size
+
     # Requirements for MutableMapping
     def __delitem__(self, key):
+        if key not in self:
+            raise KeyError(key)
         del self.vector[key]
 
     def __getitem__(self, key):
+        if key not in self:
+            raise KeyError(key)
         return self.vector.get(key)
 
     def __iter__(self):
@@ -152,11 +160,13 @@ class VectorMap(MutableMapping):
         return self.vector.nvals
 
     def __setitem__(self, key, val):
+        if not self._is_index(key):
+            raise KeyError(key)
         self.vector[key] = val
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        return key in self.vector
+        return self._is_index(key) and key in self.vector
 
     def __eq__(self, other):
         if isinstance(other, VectorMap):
@@ -173,7 +183,7 @@ class VectorMap(MutableMapping):
         self.vector.clear()
 
     def get(self, key, default=None):
-        return self.vector.get(key, default)
+        return self.vector.get(key, default) if self._is_index(key) else default
 
     # items
     # keys
@@ -189,9 +199,9 @@ class VectorMap(MutableMapping):
         return idx, value
 
     def setdefault(self, key, default=None):
-        if (value := self.vector.get(key)) is not None:
+        if (value := self.get(key)) is not None:
             return value
-        self.vector[key] = default
+        self[key] = default
         return default
 
     # update
-- 
2.43.0


From a24f2ec2cbbea7cc12fb242fbd29c59ac425e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 65/83] fix: result mappings: deleting missing keys, and
 deleting from mappings with a fill value

---
 graphblas_algorithms/classes/nodemap.py | 26 +++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index b1c62f2..f574904 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -35,10 +35,18 @@ class NodeMap(MutableMapping):
     vector_to_set = _utils.vector_to_set
     # _cacheit = _utils._cacheit
 
+    def _fill(self):
+        # Store the fill value, so that nodes can be removed
+        if self._fill_value is not None:
+            self.vector(mask=~self.vector.S) << self._fill_value
+            self._fill_value = None
+
     # Requirements for MutableMapping
     def __delitem__(self, key):
-        idx = self._key_to_id[key]
-        del self.vector[idx]
+        if key not in self:
+            raise KeyError(key)
+        self._fill()
+        del self.vector[self._key_to_id[key]]
 
     def __getitem__(self, key):
         idx = self._key_to_id[key]
@@ -108,6 +116,7 @@ class NodeMap(MutableMapping):
     # pop
 
     def popitem(self):
+        self._fill()
         v = self.vector
         try:
             idx, value = next(v.ss.iteritems())
@@ -244,6 +253,8 @@ class VectorNodeMap(MutableMapping):
 
     # Requirements for MutableMapping
     def __delitem__(self, key):
+        if key not in self:
+            raise KeyError(key)
         idx = self._key_to_id[key]
         del self.matrix[idx, :]
         if self._rows is not None:
@@ -359,7 +370,17 @@ class NodeNodeMap(MutableMapping):
     # _cacheit = _utils._cacheit
 
     # Requirements for MutableMapping
+    def _fill(self):
+        # Store the fill value, so that rows can be removed
+        if self._fill_value is not None:
+            self.matrix(mask=~self.matrix.S) << self._fill_value
+            self._fill_value = None
+            self._rows = None
+
     def __delitem__(self, key):
+        if key not in self:
+            raise KeyError(key)
+        self._fill()
         idx = self._key_to_id[key]
         del self.matrix[idx, :]
         if self._rows is not None:
@@ -444,6 +465,7 @@ class NodeNodeMap(MutableMapping):
     # pop
 
     def popitem(self):
+        self._fill()
         rows = self._get_rows()
         try:
             idx = next(rows.ss.iterkeys())
-- 
2.43.0


From 783e82a40a102e912f23c87936cafc1d5eff891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 66/83] fix: NodeMap.setdefault when values are nodes

---
 graphblas_algorithms/classes/nodemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index f574904..364dec5 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -136,7 +136,7 @@ class NodeMap(MutableMapping):
         if self._fill_value is not None:
             return self._fill_value
         if default is not None:
-            self.vector[idx] = default
+            self[key] = default
         return default
 
     # update
-- 
2.43.0


From 5946e26d5f448e9fe02055b3f7dc71cba4716865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 67/83] fix: NodeNodeMap.__setitem__ translates nodes

---
 graphblas_algorithms/classes/nodemap.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 364dec5..f9125cb 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -412,13 +412,11 @@ class NodeNodeMap(MutableMapping):
 
     def __setitem__(self, key, val):
         idx = self._key_to_id[key]
-        if isinstance(val, NodeMap):
-            # TODO: check val._key_to_id?
-            val = val.vector
-        elif isinstance(val, dict):
-            val = Vector.from_dict(val, self.matrix.dtype, size=self.matrix.ncols)
-        else:
+        if not isinstance(val, (NodeMap, dict)):
             raise TypeError
+        if self._values_are_keys:
+            val = {k: self._key_to_id[v] for k, v in val.items()}
+        val = self.dict_to_vector(val, size=self.matrix.ncols, dtype=self.matrix.dtype)
         if val.nvals == 0:
             del self.matrix[idx, :]
             if self._rows is not None:
-- 
2.43.0


From 5cd3fd0fefef3379c7a43ad765cad159e33289c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 68/83] fix: result mappings with the same items are equal

---
 graphblas_algorithms/classes/nodemap.py | 26 ++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index f9125cb..bdfc258 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -86,12 +86,13 @@ class NodeMap(MutableMapping):
 
     def __eq__(self, other):
         if isinstance(other, NodeMap):
-            return (
+            if (
                 self._values_are_keys == other._values_are_keys
                 and self._fill_value == other._fill_value
                 and self.vector.isequal(other.vector)
                 and self._key_to_id == other._key_to_id
-            )
+            ):
+                return True
         return super().__eq__(other)
 
     def clear(self):
@@ -179,13 +180,10 @@ class VectorMap(MutableMapping):
 
     def __eq__(self, other):
         if isinstance(other, VectorMap):
-            return self.vector.isequal(other.vector)
-        if isinstance(other, Vector):
+            if self.vector.isequal(other.vector):
+                return True
+        elif isinstance(other, Vector):
             return self.vector.isequal(other)
-        if isinstance(other, NodeMap):
-            return self.vector.isequal(other.vector) and other._key_to_id == {
-                i: i for i in range(self.vector.size)
-            }
         return super().__eq__(other)
 
     def clear(self):
@@ -300,7 +298,12 @@ class VectorNodeMap(MutableMapping):
 
     def __eq__(self, other):
         if isinstance(other, VectorNodeMap):
-            return self.matrix.isequal(other.matrix) and self._key_to_id == other._key_to_id
+            if (
+                self._key_to_id == other._key_to_id
+                and self.matrix.isequal(other.matrix)
+                and self._get_rows().isequal(other._get_rows())
+            ):
+                return True
         return super().__eq__(other)
 
     def clear(self):
@@ -435,12 +438,13 @@ class NodeNodeMap(MutableMapping):
 
     def __eq__(self, other):
         if isinstance(other, NodeNodeMap):
-            return (
+            if (
                 self._fill_value == other._fill_value
                 and self._values_are_keys == other._values_are_keys
                 and self.matrix.isequal(other.matrix)
                 and self._key_to_id == other._key_to_id
-            )
+            ):
+                return True
         return super().__eq__(other)
 
     def clear(self):
-- 
2.43.0


From 6d7c64fab2ac19976f0f7f6d71b96eb791458d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 69/83] fix: VectorNodeMap and NodeNodeMap without key_to_id

---
 graphblas_algorithms/classes/nodemap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index bdfc258..0a73703 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -219,7 +219,7 @@ class VectorNodeMap(MutableMapping):
     def __init__(self, A, *, key_to_id=None):
         self.matrix = A
         if key_to_id is None:
-            self._key_to_id = {i: i for i in range(A.size)}
+            self._key_to_id = {i: i for i in range(A.nrows)}
         else:
             self._key_to_id = key_to_id
         self._id_to_key = None
@@ -340,7 +340,7 @@ class NodeNodeMap(MutableMapping):
     def __init__(self, A, *, fill_value=None, values_are_keys=False, key_to_id=None):
         self.matrix = A
         if key_to_id is None:
-            self._key_to_id = {i: i for i in range(A.size)}
+            self._key_to_id = {i: i for i in range(A.nrows)}
         else:
             self._key_to_id = key_to_id
         self._id_to_key = None
-- 
2.43.0


From c5da5430ac4946127b08fda9db9618b2f8d71a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 70/83] fix: NodeSet: `in` and `discard` of values that are not
 nodes

---
 graphblas_algorithms/classes/nodeset.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/classes/nodeset.py b/graphblas_algorithms/classes/nodeset.py
index b79895e..c989650 100644
--- a/graphblas_algorithms/classes/nodeset.py
+++ b/graphblas_algorithms/classes/nodeset.py
@@ -34,8 +34,8 @@ class NodeSet(MutableSet):
 
     # Requirements for MutableSet
     def __contains__(self, x):
-        idx = self._key_to_id[x]
-        return idx in self.vector
+        idx = self._key_to_id.get(x)
+        return idx is not None and idx in self.vector
 
     def __iter__(self):
         # Slow if we iterate over one; fast if we iterate over all
@@ -51,8 +51,9 @@ class NodeSet(MutableSet):
         self.vector[idx] = True
 
     def discard(self, value):
-        idx = self._key_to_id[value]
-        del self.vector[idx]
+        idx = self._key_to_id.get(value)
+        if idx is not None:
+            del self.vector[idx]
 
     # Override other MutableSet methods
     def __eq__(self, other):
-- 
2.43.0


From cd9e8ecfea354c6183a325a12e288e12eb12a867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 71/83] fix: NodeSet operators with sets of other values

---
 graphblas_algorithms/classes/nodeset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/nodeset.py b/graphblas_algorithms/classes/nodeset.py
index c989650..11c9d5b 100644
--- a/graphblas_algorithms/classes/nodeset.py
+++ b/graphblas_algorithms/classes/nodeset.py
@@ -96,7 +96,10 @@ class NodeSet(MutableSet):
         del self.vector[idx]
 
     def _from_iterable(self, it):
-        # The elements in the iterable must be contained within key_to_id
+        it = set(it)
+        if not it <= self._key_to_id.keys():
+            # Not all elements are nodes
+            return it
         rv = object.__new__(type(self))
         rv._key_to_id = self._key_to_id
         rv._id_to_key = self._id_to_key
-- 
2.43.0


From dfd6f7ab6aa26444b7f164a712b2e011f9950a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 72/83] fix: NodeSet.isdisjoint

---
 graphblas_algorithms/classes/nodeset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/nodeset.py b/graphblas_algorithms/classes/nodeset.py
index 11c9d5b..e640df2 100644
--- a/graphblas_algorithms/classes/nodeset.py
+++ b/graphblas_algorithms/classes/nodeset.py
@@ -76,8 +76,8 @@ class NodeSet(MutableSet):
     def clear(self):
         self.vector.clear()
 
-    def isdisjoin(self, other):
-        if isinstance(other, NodeSet):
+    def isdisjoint(self, other):
+        if isinstance(other, NodeSet) and self._key_to_id == other._key_to_id:
             return not any_pair[bool](self.vector @ other.vector)
         return super().isdisjoint(other)
 
-- 
2.43.0


From ed48b1a32dc061db3d28e5e1244337a4fef9e307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 73/83] fix: NodeSets with the same elements are equal

---
 graphblas_algorithms/classes/nodeset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/nodeset.py b/graphblas_algorithms/classes/nodeset.py
index e640df2..1001a27 100644
--- a/graphblas_algorithms/classes/nodeset.py
+++ b/graphblas_algorithms/classes/nodeset.py
@@ -60,12 +60,13 @@ class NodeSet(MutableSet):
         if isinstance(other, NodeSet):
             a = self.vector
             b = other.vector
-            return (
+            if (
                 a.size == b.size
                 and (nvals := a.nvals) == b.nvals
                 and plus_pair(a @ b).get(0) == nvals
                 and self._key_to_id == other._key_to_id
-            )
+            ):
+                return True
         return super().__eq__(other)
 
     # __and__
-- 
2.43.0


From 8d5b725c777d5118cbab2b86b2c446bba24f589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 74/83] fix: NodeNodeMap.__setitem__ of a mapping with a fill
 value

---
 graphblas_algorithms/classes/nodemap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 0a73703..9598d4b 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -417,6 +417,7 @@ class NodeNodeMap(MutableMapping):
         idx = self._key_to_id[key]
         if not isinstance(val, (NodeMap, dict)):
             raise TypeError
+        self._fill()
         if self._values_are_keys:
             val = {k: self._key_to_id[v] for k, v in val.items()}
         val = self.dict_to_vector(val, size=self.matrix.ncols, dtype=self.matrix.dtype)
-- 
2.43.0


From 471de99217fdeef98a7a549e7ef56810e82baae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 75/83] fix: missing distances of integer floyd_warshall
 mappings are kept when rows are changed

---
 graphblas_algorithms/classes/nodemap.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 9598d4b..7142fb9 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -38,6 +38,9 @@ class NodeMap(MutableMapping):
     def _fill(self):
         # Store the fill value, so that nodes can be removed
         if self._fill_value is not None:
+            if isinstance(self._fill_value, float) and self.vector.dtype.np_type.kind != "f":
+                # Such as distances, which are infinite where there is no path
+                self.vector = self.vector.dup(dtype=float)
             self.vector(mask=~self.vector.S) << self._fill_value
             self._fill_value = None
 
@@ -376,6 +379,9 @@ class NodeNodeMap(MutableMapping):
     def _fill(self):
         # Store the fill value, so that rows can be removed
         if self._fill_value is not None:
+            if isinstance(self._fill_value, float) and self.matrix.dtype.np_type.kind != "f":
+                # Such as distances, which are infinite where there is no path
+                self.matrix = self.matrix.dup(dtype=float)
             self.matrix(mask=~self.matrix.S) << self._fill_value
             self._fill_value = None
             self._rows = None
-- 
2.43.0


From 4e87aee108d88a1b80b0620368717a55fff4ac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:51 +0000
Subject: [PATCH 76/83] fix: node_expansion of a node that is not in the graph
 raises NetworkXError

---
 graphblas_algorithms/nxapi/cuts.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphblas_algorithms/nxapi/cuts.py b/graphblas_algorithms/nxapi/cuts.py
index 643861c..dd793b2 100644
--- a/graphblas_algorithms/nxapi/cuts.py
+++ b/graphblas_algorithms/nxapi/cuts.py
@@ -1,6 +1,8 @@
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
 
+from .exception import NetworkXError
+
 __all__ = [
     "cut_size",
     "volume",
@@ -64,6 +66,10 @@ def mixing_expansion(G, S, T=None, weight=None):
 
 def node_expansion(G, S):
     G = to_graph(G)
+    S = list(S)
+    for node in S:
+        if node not in G:
+            raise NetworkXError(f"The node {node} is not in the graph.")
     S = G.list_to_vector(S)
     return algorithms.node_expansion(G, S)
 
-- 
2.43.0


From 63a1c04b2dcd15eb73214296eaf6ad0c54cb9dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:51 +0000
Subject: [PATCH 77/83] fix: floyd_warshall_numpy with a nodelist that is not
 the nodes raises NetworkXError

---
 graphblas_algorithms/nxapi/shortest_paths/dense.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/shortest_paths/dense.py b/graphblas_algorithms/nxapi/shortest_paths/dense.py
index 82c2eed..771eb3e 100644
--- a/graphblas_algorithms/nxapi/shortest_paths/dense.py
+++ b/graphblas_algorithms/nxapi/shortest_paths/dense.py
@@ -24,7 +24,9 @@ def floyd_warshall_predecessor_and_distance(G, weight="weight"):
 def floyd_warshall_numpy(G, nodelist=None, weight="weight"):
     G = to_graph(G, weight=weight)
     if nodelist is not None:
-        if not (len(nodelist) == len(G) == len(set(nodelist))):
+        if not (len(nodelist) == len(G) == len(set(nodelist))) or any(
+            n not in G for n in nodelist
+        ):
             raise NetworkXError("nodelist must contain every node in G with no repeats.")
         permutation = G.list_to_ids(nodelist)
     else:
-- 
2.43.0


From 00c7c555afa5c0e59c66c2a1b2090cb395c72c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:51 +0000
Subject: [PATCH 78/83] fix: fast_could_be_isomorphic refuses a directed second
 graph

---
 graphblas_algorithms/nxapi/exception.py            | 4 ++++
 graphblas_algorithms/nxapi/isomorphism/isomorph.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/graphblas_algorithms/nxapi/exception.py b/graphblas_algorithms/nxapi/exception.py
index 0804bb1..8c408bd 100644
--- a/graphblas_algorithms/nxapi/exception.py
+++ b/graphblas_algorithms/nxapi/exception.py
@@ -8,6 +8,9 @@ except ImportError:
     class NetworkXNoPath(Exception):
         pass
 
+    class NetworkXNotImplemented(Exception):
+        pass
+
     class NetworkXPointlessConcept(Exception):
         pass
 
@@ -24,6 +27,7 @@ else:
     from networkx import (
         NetworkXError,
         NetworkXNoPath,
+        NetworkXNotImplemented,
         NetworkXPointlessConcept,
         NetworkXUnbounded,
         NodeNotFound,
diff --git a/graphblas_algorithms/nxapi/isomorphism/isomorph.py b/graphblas_algorithms/nxapi/isomorphism/isomorph.py
index 4aef89c..81b61ea 100644
--- a/graphblas_algorithms/nxapi/isomorphism/isomorph.py
+++ b/graphblas_algorithms/nxapi/isomorphism/isomorph.py
@@ -2,6 +2,8 @@ from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
 from graphblas_algorithms.utils import not_implemented_for
 
+from ..exception import NetworkXNotImplemented
+
 __all__ = [
     "fast_could_be_isomorphic",
     "faster_could_be_isomorphic",
@@ -12,6 +14,8 @@ __all__ = [
 def fast_could_be_isomorphic(G1, G2):
     G1 = to_graph(G1)
     G2 = to_graph(G2)
+    if G2.is_directed():
+        raise NetworkXNotImplemented("not implemented for directed type")
     return algorithms.fast_could_be_isomorphic(G1, G2)
 
 
-- 
2.43.0


From 693f73df900ef969916961e08f5d3266828b355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 79/83] fix: inter_community_edges refuses anything but a
 partition of the nodes

---
 graphblas_algorithms/nxapi/community/quality.py | 6 ++++++
 graphblas_algorithms/nxapi/exception.py         | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/graphblas_algorithms/nxapi/community/quality.py b/graphblas_algorithms/nxapi/community/quality.py
index bcb96ea..2bca504 100644
--- a/graphblas_algorithms/nxapi/community/quality.py
+++ b/graphblas_algorithms/nxapi/community/quality.py
@@ -1,6 +1,8 @@
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
 
+from ..exception import NetworkXException
+
 __all__ = []
 
 
@@ -12,5 +14,9 @@ def intra_community_edges(G, partition):
 
 def inter_community_edges(G, partition):
     G = to_graph(G)
+    partition = list(partition)
+    nodes = {n for block in partition for n in block if n in G}
+    if not (len(G) == len(nodes) == sum(len(block) for block in partition)):
+        raise NetworkXException("each node must be in exactly one part of `partition`")
     partition = [G.set_to_vector(block, ignore_extra=True) for block in partition]
     return algorithms.inter_community_edges(G, partition)
diff --git a/graphblas_algorithms/nxapi/exception.py b/graphblas_algorithms/nxapi/exception.py
index 8c408bd..ab9507b 100644
--- a/graphblas_algorithms/nxapi/exception.py
+++ b/graphblas_algorithms/nxapi/exception.py
@@ -5,6 +5,9 @@ except ImportError:
     class NetworkXError(Exception):
         pass
 
+    class NetworkXException(Exception):
+        pass
+
     class NetworkXNoPath(Exception):
         pass
 
@@ -26,6 +29,7 @@ except ImportError:
 else:
     from networkx import (
         NetworkXError,
+        NetworkXException,
         NetworkXNoPath,
         NetworkXNotImplemented,
         NetworkXPointlessConcept,
-- 
2.43.0


From dfaec91ed041a6cddf472e63eedd97d92d8fce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 80/83] fix: count parallel edges in normalized_cut_size,
 conductance and edge_expansion of multigraphs

---
 graphblas_algorithms/nxapi/cuts.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/nxapi/cuts.py b/graphblas_algorithms/nxapi/cuts.py
index dd793b2..bbd74f6 100644
--- a/graphblas_algorithms/nxapi/cuts.py
+++ b/graphblas_algorithms/nxapi/cuts.py
@@ -31,30 +31,33 @@ def volume(G, S, weight=None):
 
 
 def normalized_cut_size(G, S, T=None, weight=None):
+    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     if T is None:
         T = (~S.S).new()
     else:
         T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.normalized_cut_size(G, S, T, is_weighted=weight is not None)
+    return algorithms.normalized_cut_size(G, S, T, is_weighted=is_multigraph or weight is not None)
 
 
 def conductance(G, S, T=None, weight=None):
+    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     if T is None:
         T = (~S.S).new()
     else:
         T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.conductance(G, S, T, is_weighted=weight is not None)
+    return algorithms.conductance(G, S, T, is_weighted=is_multigraph or weight is not None)
 
 
 def edge_expansion(G, S, T=None, weight=None):
+    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.edge_expansion(G, S, T, is_weighted=weight is not None)
+    return algorithms.edge_expansion(G, S, T, is_weighted=is_multigraph or weight is not None)
 
 
 def mixing_expansion(G, S, T=None, weight=None):
-- 
2.43.0


From 49beea6ad693ace2f489ed9cf00c1dca331443c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 81/83] fix: repeat edges of multigraphs with float counts in
 edge_boundary

---
 graphblas_algorithms/nxapi/boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/boundary.py b/graphblas_algorithms/nxapi/boundary.py
index a49d120..74dff7b 100644
--- a/graphblas_algorithms/nxapi/boundary.py
+++ b/graphblas_algorithms/nxapi/boundary.py
@@ -40,7 +40,7 @@ def edge_boundary(G, nbunch1, nbunch2=None, data=False, keys=False, default=None
     if is_multigraph:
         # Edge weights indicate number of times to repeat edges
         it = itertools.chain.from_iterable(
-            itertools.starmap(itertools.repeat, zip(it, vals, strict=True))
+            itertools.starmap(itertools.repeat, zip(it, vals.astype(int), strict=True))
         )
     return it
 
-- 
2.43.0


From 4f234aaa6cc85e0ca9b64feab094b52b94d5e93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 82/83] fix: to_graph keeps NetworkX multigraphs as multigraphs

---
 graphblas_algorithms/classes/digraph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index c170dfe..d1930cc 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -401,9 +401,11 @@ def to_graph(G, weight=None, dtype=None):
         import networkx as nx
 
         if isinstance(G, nx.DiGraph):
-            return DiGraph.from_networkx(G, weight=weight, dtype=dtype)
+            cls = MultiDiGraph if G.is_multigraph() else DiGraph
+            return cls.from_networkx(G, weight=weight, dtype=dtype)
         if isinstance(G, nx.Graph):
-            return ga.Graph.from_networkx(G, weight=weight, dtype=dtype)
+            cls = ga.MultiGraph if G.is_multigraph() else ga.Graph
+            return cls.from_networkx(G, weight=weight, dtype=dtype)
     except ImportError:
         pass
     raise TypeError
-- 
2.43.0


From 9a3ea644622f44584214fc293f3341a495e367b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 83/83] fix: cut functions and edge_boundary accept a bare
 Matrix

---
 graphblas_algorithms/nxapi/boundary.py |  2 +-
 graphblas_algorithms/nxapi/cuts.py     | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/graphblas_algorithms/nxapi/boundary.py b/graphblas_algorithms/nxapi/boundary.py
index 74dff7b..461051c 100644
--- a/graphblas_algorithms/nxapi/boundary.py
+++ b/graphblas_algorithms/nxapi/boundary.py
@@ -9,7 +9,6 @@ __all__ = ["edge_boundary", "node_boundary"]
 def edge_boundary(G, nbunch1, nbunch2=None, data=False, keys=False, default=None):
     # TODO: figure out data, keys, and default arguments and handle multigraph
     # data=True will be tested in test_mst.py
-    is_multigraph = G.is_multigraph()
     # This may be wrong for multi-attributed graphs
     if data is True:
         weight = "weight"
@@ -18,6 +17,7 @@ def edge_boundary(G, nbunch1, nbunch2=None, data=False, keys=False, default=None
     else:
         weight = data
     G = to_graph(G, weight=weight)
+    is_multigraph = G.is_multigraph()
     v1 = G.set_to_vector(nbunch1, ignore_extra=True)
     v2 = G.set_to_vector(nbunch2, ignore_extra=True)
     result = algorithms.edge_boundary(G, v1, v2, is_weighted=is_multigraph or data)
diff --git a/graphblas_algorithms/nxapi/cuts.py b/graphblas_algorithms/nxapi/cuts.py
index bbd74f6..1c59d38 100644
--- a/graphblas_algorithms/nxapi/cuts.py
+++ b/graphblas_algorithms/nxapi/cuts.py
@@ -16,23 +16,23 @@ __all__ = [
 
 
 def cut_size(G, S, T=None, weight=None):
-    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
+    is_multigraph = G.is_multigraph()
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
     return algorithms.cut_size(G, S, T, is_weighted=is_multigraph or weight is not None)
 
 
 def volume(G, S, weight=None):
-    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
+    is_multigraph = G.is_multigraph()
     S = G.list_to_vector(S)
     return algorithms.volume(G, S, weighted=is_multigraph or weight is not None)
 
 
 def normalized_cut_size(G, S, T=None, weight=None):
-    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
+    is_multigraph = G.is_multigraph()
     S = G.set_to_vector(S, ignore_extra=True)
     if T is None:
         T = (~S.S).new()
@@ -42,8 +42,8 @@ def normalized_cut_size(G, S, T=None, weight=None):
 
 
 def conductance(G, S, T=None, weight=None):
-    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
+    is_multigraph = G.is_multigraph()
     S = G.set_to_vector(S, ignore_extra=True)
     if T is None:
         T = (~S.S).new()
@@ -53,8 +53,8 @@ def conductance(G, S, T=None, weight=None):
 
 
 def edge_expansion(G, S, T=None, weight=None):
-    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
+    is_multigraph = G.is_multigraph()
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
     return algorithms.edge_expansion(G, S, T, is_weighted=is_multigraph or weight is not None)
-- 
2.43.0

