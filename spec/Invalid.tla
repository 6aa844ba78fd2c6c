------------------------------- MODULE Invalid -------------------------------
(***************************************************************************)
(* Requests that make no sense (C21).  One event "inv" is a call of        *)
(* function e.fn with                                                      *)
(*   e.ns     nodes given singly, in argument order                        *)
(*   e.ss     collections of nodes given, in argument order                *)
(*   e.nl     <<>> or <<nodelist>>                                         *)
(*   e.h2     second graph (0: none);   e.multi / e.multi2: the graph is a *)
(*   multigraph;   e.bad: a numeric argument that cannot be served.        *)
(* Must is the set of exception classes demanded by the reasons that apply *)
(* (several may apply at once; any of them may be reported).  When no      *)
(* reason applies the call has to answer, except for the circumstances in  *)
(* May under which the answer itself is not defined.                       *)
(***************************************************************************)
EXTENDS Outcome

NI == {"NetworkXNotImplemented"}
AnyExc == {"Exception"}

DirRefused == {"generalized_degree", "triangles", "is_connected", "node_connected_component", "k_truss",
               "efficiency", "bethe_hessian_matrix", "modularity_matrix", "is_k_regular", "fast_could_be_isomorphic"}
UndRefused == {"in_degree_centrality", "out_degree_centrality", "is_weakly_connected", "directed_modularity_matrix",
               "lowest_common_ancestor", "is_tournament", "score_sequence", "tournament_matrix"}
MultiRefused == {"eigenvector_centrality", "katz_centrality", "k_truss", "bethe_hessian_matrix", "modularity_matrix",
                 "directed_modularity_matrix", "is_tournament", "score_sequence", "tournament_matrix"}
Binary == {"compose", "difference", "disjoint_union", "full_join", "intersection", "symmetric_difference", "union"}
Iso == {"fast_could_be_isomorphic", "faster_could_be_isomorphic"}
EmptyPointless == {"eigenvector_centrality", "is_connected", "is_weakly_connected"}
EmptyError == {"adjacency_matrix", "laplacian_matrix", "normalized_laplacian_matrix", "modularity_matrix",
               "directed_modularity_matrix", "bethe_hessian_matrix", "overall_reciprocity"}
Matrix == {"adjacency_matrix", "laplacian_matrix", "normalized_laplacian_matrix", "modularity_matrix",
           "directed_modularity_matrix", "bethe_hessian_matrix", "floyd_warshall_numpy"}
NeedsNode == {"has_path", "efficiency", "single_source_shortest_path_length", "single_target_shortest_path_length",
              "bellman_ford_path", "bellman_ford_path_length", "single_source_bellman_ford_path_length", "ego_graph",
              "lowest_common_ancestor"}
NeedsNodeE == {"descendants", "ancestors", "descendants_at_distance", "is_isolate"}
NeedsSetE == {"bfs_layers", "node_expansion"}
DividesByCut == {"conductance", "edge_expansion", "mixing_expansion", "normalized_cut_size", "boundary_expansion",
                 "node_expansion"}
Iterates == {"eigenvector_centrality", "katz_centrality", "pagerank", "hits"}

Missing(g, L) == \E i \in 1..Len(L) : L[i] \notin V(g)
\* NetworkX only discovers a target that is not there when it looks for its distance
Target(e) == IF e.fn \in {"bellman_ford_path", "bellman_ford_path_length"} THEN {"NetworkXNoPath"} ELSE {}

IsPart(g, P) == /\ UNION {Rng(P[i]) : i \in 1..Len(P)} = V(g)
                /\ \A i, j \in 1..Len(P) : i # j => Rng(P[i]) \intersect Rng(P[j]) = {}

Must(st, e) ==
  LET g == st[e.g].g  fn == e.fn IN
     (IF g.dir /\ fn \in DirRefused THEN NI ELSE {})
  \cup (IF ~g.dir /\ fn \in UndRefused THEN NI ELSE {})
  \cup (IF ~g.dir /\ fn = "reverse" THEN ENX ELSE {})
  \cup (IF ~g.dir /\ fn \in {"overall_reciprocity", "reciprocity"} THEN AnyExc ELSE {})
  \cup (IF e.multi /\ fn \in MultiRefused THEN NI ELSE {})
  \cup (IF e.h2 # 0 /\ (e.multi \/ e.multi2) /\ fn \in Binary THEN {"NotImplementedError"} \cup ENX ELSE {})
  \cup (IF NV(g) = 0 /\ fn \in EmptyPointless THEN EPointless ELSE {})
  \cup (IF NV(g) = 0 /\ fn \in EmptyError THEN ENX ELSE {})
  \cup (IF NV(g) = 0 /\ fn = "lowest_common_ancestor" THEN EPointless ELSE {})
  \cup (IF NV(g) = 0 /\ fn = "is_regular" THEN AnyExc ELSE {})
  \cup (IF Missing(g, e.ns) /\ fn \in NeedsNode THEN ENotFound \cup Target(e) ELSE {})
  \cup (IF Missing(g, e.ns) /\ fn \in NeedsNodeE THEN ENX ELSE {})
  \cup (IF Missing(g, e.ns) /\ fn = "node_connected_component" THEN {"KeyError"} ELSE {})
  \cup (IF fn \in NeedsSetE /\ \E i \in 1..Len(e.ss) : Missing(g, e.ss[i]) THEN ENX ELSE {})
  \cup (IF fn = "inter_community_edges" /\ ~IsPart(g, e.ss) THEN {"NetworkXException"} ELSE {})
  \cup (IF e.nl # <<>> /\ fn \in Matrix /\ NV(g) > 0
           /\ (Missing(g, e.nl[1]) \/ ~NoDup(e.nl[1])
               \/ (fn = "floyd_warshall_numpy" /\ Rng(e.nl[1]) # V(g))
               \/ (fn # "floyd_warshall_numpy" /\ e.nl[1] = <<>>)) THEN ENX ELSE {})
  \cup (IF e.nl # <<>> /\ fn = "google_matrix" /\ NV(g) > 0 /\ (~(Rng(e.nl[1]) \subseteq V(g)) \/ ~NoDup(e.nl[1])) THEN ENX ELSE {})
  \cup (IF e.h2 # 0 /\ g.dir # st[e.h2].g.dir /\ fn \in Binary \ {"difference", "symmetric_difference"} THEN ENX ELSE {})
  \cup (IF e.h2 # 0 /\ fn \in {"union", "full_join"} /\ V(g) \intersect V(st[e.h2].g) # {} THEN ENX ELSE {})
  \cup (IF e.h2 # 0 /\ fn \in {"difference", "symmetric_difference"}
           /\ V(g) # V(st[e.h2].g) THEN ENX ELSE {})
  \cup (IF e.h2 # 0 /\ st[e.h2].g.dir /\ fn = "fast_could_be_isomorphic" THEN NI ELSE {})
  \cup (IF e.bad /\ fn \in Iterates \ {"hits"} /\ NV(g) > 0 THEN {"PowerIterationFailedConvergence"} ELSE {})

\* circumstances in which no answer is defined, or in which NetworkX answers and the library is allowed not to
May(st, e) ==
  LET g == st[e.g].g  fn == e.fn IN
     (IF fn \in DividesByCut \cup {"average_clustering", "efficiency"} THEN {"ZeroDivisionError"} ELSE {})
  \cup (IF fn = "average_clustering" THEN ENX ELSE {})
  \cup (IF (fn \in DividesByCut \cup {"volume", "cut_size"}) /\ (\E i \in 1..Len(e.ss) : Missing(g, e.ss[i]))
        THEN {"KeyError"} ELSE {})
  \cup (IF fn \in Iterates THEN {"PowerIterationFailedConvergence", "ValueError", "ArpackError"} ELSE {})
  \cup (IF fn \in {"bellman_ford_path", "bellman_ford_path_length"} THEN {"NetworkXNoPath"} ELSE {})
  \cup (IF g.dir /\ fn = "square_clustering" THEN AnyExc ELSE {})
  \cup (IF e.multi /\ fn \in {"clustering", "average_clustering", "transitivity", "generalized_degree", "triangles"}
        THEN NI ELSE {})
  \cup (IF fn = "google_matrix" THEN {"ValueError"} \cup ENX ELSE {})
  \cup (IF fn = "reciprocity" THEN ENX ELSE {})
  \cup (IF fn \in {"clustering", "triangles", "generalized_degree", "square_clustering"} /\ Missing(g, e.ns) THEN ENX ELSE {})
  \cup (IF fn = "square_clustering" /\ HasLoops(g) THEN {"ZeroDivisionError"} ELSE {})
  \cup (IF fn = "overall_reciprocity" /\ Edges(g) = {} THEN ENX ELSE {})
  \cup (IF fn \in {"tournament_matrix", "bethe_hessian_matrix", "modularity_matrix", "directed_modularity_matrix"} /\ Edges(g) = {}
        THEN AnyExc ELSE {})
  \cup (IF fn = "floyd_warshall_numpy" /\ NV(g) = 0 THEN ENX ELSE {})
  \cup (IF fn = "lowest_common_ancestor" THEN AnyExc ELSE {})

InvalidVerdict(st, e) ==
  LET m == Must(st, e) IN
  IF m # {} THEN If(Raises(e.o, m), "invalid." \o e.fn)
  ELSE If(e.o.k # "exc" \/ Raises(e.o, May(st, e)), "valid-refused." \o e.fn)

InvalidOps == {"inv"}
=============================================================================
