------------------------------ MODULE SmallGraphs ------------------------------
(* All graphs with at most N nodes over a set of weights (design models).    *)
EXTENDS Outcome, Reach, Weighted, SequencesExt
CONSTANTS N, DIR, LOOPS, WS
NoEdge == 1000
Slots == {p \in (1..N) \X (1..N) : (DIR \/ p[1] <= p[2]) /\ (LOOPS \/ p[1] # p[2])}
Cell(f, u, v) == IF <<u, v>> \in Slots THEN f[<<u, v>>] ELSE IF ~DIR /\ <<v, u>> \in Slots THEN f[<<v, u>>] ELSE NoEdge
GraphOf(n, f) ==
  [nd |-> [i \in 1..n |-> i], dir |-> DIR, sc |-> 1,
   a |-> [u \in 1..N |-> [v \in 1..N |-> IF Cell(f, u, v) = NoEdge THEN 0 ELSE 1]],
   w |-> [u \in 1..N |-> [v \in 1..N |-> IF Cell(f, u, v) = NoEdge THEN 0 ELSE Cell(f, u, v)]]]
\* as a predicate, so that TLC enumerates graph by graph
IsSmall(g) == \E n \in 1..N : \E f \in [Slots -> WS \union {NoEdge}] :
   /\ \A p \in Slots : f[p] # NoEdge => p[1] <= n /\ p[2] <= n
   /\ g = GraphOf(n, f)
Off(g) == [p \in {q \in Edges(g) : q[1] # q[2]} |-> g.w[p[1]][p[2]]]
Full(g) == LET w == TLCEval(WDist(g)) IN [g |-> g, h |-> HopDist(OutFn(g)), wd |-> w, neg |-> NegNodes(w, g)]
MapOf(f) == [k |-> "map", v |-> SetToSeq({<<u, f[u]>> : u \in DOMAIN f})]
Merge(f, h) == [x \in DOMAIN f \union DOMAIN h |-> IF x \in DOMAIN h THEN h[x] ELSE f[x]]     \* h over f
MinMerge(f, h) == [x \in DOMAIN f \union DOMAIN h |->
   IF x \in DOMAIN f /\ x \in DOMAIN h THEN Min2(f[x], h[x]) ELSE IF x \in DOMAIN h THEN h[x] ELSE f[x]]
Pick(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
WS_0_1 == {0, 1}
WS_1 == {1}
WS_m1_1 == {-1, 1}
WS_m1_0_2 == {-1, 0, 2}
WS_1_3 == {1, 3}
WS_0_1_3 == {0, 1, 3}
WS_m1_0_1_3 == {-1, 0, 1, 3}
=============================================================================
