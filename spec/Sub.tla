---------------------------------- MODULE Sub ----------------------------------
(***************************************************************************)
(* Subgraph-valued queries: k-truss and ego graph (they create a new graph *)
(* object in the store).                                                   *)
(***************************************************************************)
EXTENDS Outcome, Reach, Weighted

\* graph-valued outcomes
IsGraphOn(o, S, dir) == o.k = "graph" /\ WellFormed(o.g) /\ V(o.g) = S /\ Len(o.g.nd) = Cardinality(S)
                        /\ o.g.dir = dir
EdgesAre(h, E) == Edges(h) = E
WeightsAre(h, g) == \A p \in Edges(h) : h.w[p[1]][p[2]] = g.w[p[1]][p[2]]

\* k-truss: peel edges with fewer than k-2 triangles until none is left
RECURSIVE Peel(_, _)
Peel(nb, m) ==
  LET nb2 == TLCEval([u \in DOMAIN nb |-> TLCEval({v \in nb[u] : Cardinality(nb[u] \cap nb[v]) >= m})])
  IN IF nb2 = nb THEN nb ELSE Peel(nb2, m)
\* declarative: the union of all edge sets in which every edge has enough triangles (theorem config)
TrussE(g, k) == LET nb == IF k < 3 THEN OutFn(g) ELSE Peel(OutFn(g), k - 2)
                IN  {p \in V(g) \X V(g) : p[2] \in nb[p[1]]}

\* ego graph
ReachOut(g, und) == IF und THEN AnyFn(g) ELSE OutFn(g)
UndW(g) == [g EXCEPT !.dir = FALSE,
    !.a = TLCEval([u \in DOMAIN g.a |-> TLCEval([v \in DOMAIN g.a |-> Max2(g.a[u][v], g.a[v][u])])]),
    !.w = TLCEval([u \in DOMAIN g.a |-> TLCEval([v \in DOMAIN g.a |->
              IF g.a[u][v] = 1 THEN g.w[u][v] ELSE g.w[v][u]])])]
RecipSame(g) == \A p \in Edges(g) : g.a[p[2]][p[1]] = 1 => g.w[p[1]][p[2]] = g.w[p[2]][p[1]]
NonNeg(g) == \A p \in Edges(g) : g.w[p[1]][p[2]] >= 0
\* radius: <<>> is infinite; e.rad[1] is the floor of the radius in hops, or the scaled weight limit
InRad(rad, d) == d < Inf /\ (rad = <<>> \/ d <= rad[1])
EgoNodes(g, e) ==
  LET d == IF e.wt
           THEN LET h == IF e.und /\ g.dir THEN UndW(g) ELSE g
                    w == WDist(h)
                IN TLCEval([v \in V(g) |-> w[e.u][v]])
           ELSE HopFrom(ReachOut(g, e.und), {e.u})
  IN {v \in V(g) : InRad(e.rad, d[v]) /\ (e.center \/ v # e.u)}

SubVerdict(s, e) ==
  LET g == s.g  o == e.o IN
  CASE e.op = "k_truss" ->
         IF g.dir THEN If(Raises(o, ENotImpl), "k_truss.directed")
         ELSE LET E == TrussE(g, e.k) IN
              IF ~IsGraphOn(o, {p[1] : p \in E}, FALSE) THEN "k_truss.nodes"
              ELSE If(EdgesAre(o.g, E), "k_truss.edges")
    [] e.op = "ego_graph" ->
         IF e.u \notin V(g) THEN If(Raises(o, {"NodeNotFound", "NetworkXError"}), "ego.missing")
         ELSE IF e.wt /\ (~NonNeg(g) \/ (e.und /\ g.dir /\ ~RecipSame(g))) THEN ""
         ELSE LET S == EgoNodes(g, e) IN
              IF ~IsGraphOn(o, S, g.dir) THEN "ego.nodes"
              ELSE IF ~EdgesAre(o.g, {p \in Edges(g) : p[1] \in S /\ p[2] \in S}) THEN "ego.edges"
              ELSE If(~e.keepw \/ WeightsAre(o.g, g), "ego.weights")
SubOps == {"k_truss", "ego_graph"}
=============================================================================
