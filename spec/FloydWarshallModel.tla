--------------------------- MODULE FloydWarshallModel ---------------------------
(***************************************************************************)
(* L2: Floyd-Warshall on a sparse matrix without diagonal.  Undirected     *)
(* graphs keep one triangle only and read row i from both; nodes with an   *)
(* empty row or column are never used as an intermediate.  The nodes are   *)
(* taken in any order (the code has one; a permutation may be requested).  *)
(***************************************************************************)
EXTENDS SmallGraphs
VARIABLES g, D, P, todo
vars == <<g, D, P, todo>>
Useful(u) == IF DIR THEN OutX(g, u) # {} /\ InX(g, u) # {} ELSE OutX(g, u) # {}
Half(f) == IF DIR THEN f ELSE Pick(f, {p \in DOMAIN f : p[1] < p[2]})
Init == /\ IsSmall(g)
        /\ D = Half(Off(g)) /\ P = [p \in DOMAIN Half(Off(g)) |-> p[1]] /\ todo = {u \in V(g) : Useful(u)}
RowOf(i) == IF DIR THEN [x \in {p[2] : p \in {q \in DOMAIN D : q[1] = i}} |-> D[<<i, x>>]]
          ELSE [x \in {IF p[1] = i THEN p[2] ELSE p[1] : p \in {q \in DOMAIN D : i \in {q[1], q[2]}}} |->
                  IF i < x THEN D[<<i, x>>] ELSE D[<<x, i>>]]
ColOf(i) == IF DIR THEN [x \in {p[1] : p \in {q \in DOMAIN D : q[2] = i}} |-> D[<<x, i>>]] ELSE RowOf(i)
Through(i) ==
  /\ i \in todo /\ todo' = todo \ {i}
  /\ LET r == RowOf(i)  c == ColOf(i)
         outer == Half([p \in {q \in (DOMAIN c) \X (DOMAIN r) : q[1] # q[2]} |-> c[p[1]] + r[p[2]]])
         better == {p \in DOMAIN outer : p \notin DOMAIN D \/ outer[p] < D[p]}
     IN /\ D' = MinMerge(D, outer)
        /\ P' = IF DIR THEN Merge(P, [p \in better |-> P[<<i, p[2]>>]]) ELSE P
  /\ UNCHANGED g
Next == \E i \in V(g) : Through(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Dist(u, v) == IF u = v THEN 0 ELSE LET p == IF DIR \/ u < v THEN <<u, v>> ELSE <<v, u>> IN
              IF p \in DOMAIN D THEN D[p] ELSE Inf
AnswerD ==
  todo = {} => LET s == TLCEval(Full(g)) IN
    ~HasNegCycle(s) => \A u, v \in V(g) : Dist(u, v) = s.wd[u][v]
AnswerP ==
  (todo = {} /\ DIR) => LET s == TLCEval(Full(g)) IN
    ~HasNegCycle(s) =>
      WeightedVerdict(s, [op |-> "fw_pred", unw |-> FALSE,
         o |-> [k |-> "mm", v |-> SetToSeq({<<p[1], p[2], P[p]>> : p \in DOMAIN P}),
                d |-> SetToSeq({<<p[1], p[2], IF Dist(p[1], p[2]) = Inf THEN PInf ELSE Dist(p[1], p[2])>> : p \in V(g) \X V(g)})]]) = ""
\* every intermediate value is the weight of a walk
Sound == LET s == TLCEval(Full(g)) IN ~HasNegCycle(s) => \A p \in DOMAIN D : D[p] >= s.wd[p[1]][p[2]]
Terminates == <>(todo = {})
=============================================================================
