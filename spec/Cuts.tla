--------------------------------- MODULE Cuts ---------------------------------
(***************************************************************************)
(* Boundaries, cut sizes, volumes, expansions, domination.  S is the first *)
(* node set, T the second (the complement of S when not given); labels     *)
(* that are not nodes are ignored.  Undirected edges are counted once.     *)
(***************************************************************************)
EXTENDS Outcome

\* set of edges leading from S to T; an undirected edge as <<min, max>>
Btw(g, S, T) ==
  IF g.dir THEN {p \in Edges(g) : p[1] \in S /\ p[2] \in T}
  ELSE {p \in UEdges(g) : (p[1] \in S /\ p[2] \in T) \/ (p[1] \in T /\ p[2] \in S)}
NumEdges(g) == Cardinality(UEdges(g))
SumW(g, E) == SumOver(E, LAMBDA p : g.w[p[1]][p[2]])
\* cut size in units of 1/sc when weighted
CutSize(g, S, T, wt) ==
  LET f(E) == IF wt THEN SumW(g, E) ELSE Cardinality(E) * g.sc
  IN  f(Btw(g, S, T)) + (IF g.dir THEN f(Btw(g, T, S)) ELSE 0)
\* sum of (out-)degrees; an undirected self-loop counts once
Volume(g, S, wt) ==
  IF wt THEN SumW(g, {p \in Edges(g) : p[1] \in S})
  ELSE Cardinality({p \in Edges(g) : p[1] \in S}) * g.sc
NodeBoundary(g, S) == {v \in V(g) \ S : \E u \in S : g.a[u][v] = 1}
Neighborhood(g, S) == {v \in V(g) : \E u \in S : g.a[u][v] = 1}

\* p/q as a fixed point number, raising ZeroDivisionError when q = 0
IsQuot(o, p, q, name) == IF q = 0 THEN If(Raises(o, {"ZeroDivisionError"}), name \o ".zero")
                         ELSE If(IF q < 0 THEN IsRat(o, -p, -q, 2) ELSE IsRat(o, p, q, 2), name)
\* the logged edge list: each entry <<u, v>> or <<u, v, weight>>; undirected ones in either orientation
NormE(g, t) == IF g.dir \/ t[1] <= t[2] THEN <<t[1], t[2]>> ELSE <<t[2], t[1]>>
EdgeListIs(g, o, E, data) ==
  /\ o.k = "edges" /\ Len(o.v) = Cardinality(E)
  /\ {NormE(g, o.v[i]) : i \in 1..Len(o.v)} = E
  /\ data => \A i \in 1..Len(o.v) : o.v[i][1] \in V(g) /\ o.v[i][2] \in V(g) /\ o.v[i][3] = g.w[o.v[i][1]][o.v[i][2]]
\* the first node of an entry of the edge list is in S, the second in T (for disjoint S and T)
Oriented(o, S, T) == (S \cap T) # {} \/ \A i \in 1..Len(o.v) : o.v[i][1] \in S /\ o.v[i][2] \in T

CutsVerdict(s, e) ==
  LET g == s.g  o == e.o
      S == Rng(e.S) \cap V(g)
      T == IF e.hasT THEN Rng(e.T) \cap V(g) ELSE V(g) \ S
      cut == CutSize(g, S, T, e.wt)
      vS == Volume(g, S, e.wt)
      vT == Volume(g, T, e.wt)
  IN
  CASE e.op = "edge_boundary" ->
         IF ~EdgeListIs(g, o, Btw(g, S, T), e.data # "none") THEN "edge_boundary.edges"
         ELSE If(Oriented(o, S, T), "edge_boundary.orientation")
    [] e.op = "edge_boundary_m" ->     \* a multigraph: g.w is the number of parallel edges
         LET E == Btw(g, S, T)  N == [i \in 1..Len(o.v) |-> NormE(g, o.v[i])] IN
         IF o.k # "edges" \/ Rng(N) # E THEN "edge_boundary_m.edges"
         ELSE IF ~\A p \in E : Cardinality({i \in 1..Len(N) : N[i] = p}) = g.w[p[1]][p[2]] THEN "edge_boundary_m.parallel"
         ELSE If(Oriented(o, S, T), "edge_boundary_m.orientation")
    [] e.op = "node_boundary" ->
         If(IsSet(o, NodeBoundary(g, S) \cap (IF e.hasT THEN T ELSE V(g))), "node_boundary.set")
    [] e.op = "cut_size" -> If(IsRat(o, cut, g.sc, 2), "cut_size.value")
    [] e.op = "volume"   -> If(IsRat(o, vS, g.sc, 2), "volume.value")
    [] e.op = "normalized_cut_size" ->
         IF vS = 0 \/ vT = 0 THEN If(Raises(o, {"ZeroDivisionError"}), "normalized_cut_size.zero")
         ELSE If(IsRat(o, cut * (vS + vT) * (IF vS * vT < 0 THEN -1 ELSE 1), Abs(vS * vT), 2 + Abs(cut) \div g.sc),
                 "normalized_cut_size.value")
    [] e.op = "conductance" -> IsQuot(o, cut, Min2(vS, vT), "conductance")
    [] e.op = "edge_expansion" -> IsQuot(o, cut, g.sc * Min2(Cardinality(S), Cardinality(T)), "edge_expansion")
    [] e.op = "mixing_expansion" -> IsQuot(o, cut, 2 * g.sc * NumEdges(g), "mixing_expansion")
    [] e.op = "node_expansion" -> IsQuot(o, Cardinality(Neighborhood(g, S)), Cardinality(S), "node_expansion")
    [] e.op = "boundary_expansion" -> IsQuot(o, Cardinality(NodeBoundary(g, S)), Cardinality(S), "boundary_expansion")
    [] e.op = "is_dominating_set" ->
         If(IsBool(o, V(g) = S \union Neighborhood(g, S)), "is_dominating_set.value")
CutsOps == {"edge_boundary", "edge_boundary_m", "node_boundary", "cut_size", "volume", "normalized_cut_size", "conductance",
  "edge_expansion", "mixing_expansion", "node_expansion", "boundary_expansion", "is_dominating_set"}
=============================================================================
