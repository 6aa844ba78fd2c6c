------------------------------- MODULE Weighted -------------------------------
(***************************************************************************)
(* Weighted shortest paths: Bellman-Ford lengths, paths, negative cycles,  *)
(* and Floyd-Warshall.  Derived values: s.wd minimal walk weight with at   *)
(* most n edges (Inf if none), s.neg set of nodes lying on a closed walk   *)
(* of negative weight.                                                     *)
(***************************************************************************)
EXTENDS Outcome

\* weight function on V(g) x V(g) with Inf for non-edges
WFn(g) == TLCEval([u \in V(g) |-> TLCEval([v \in V(g) |-> IF g.a[u][v] = 1 THEN g.w[u][v] ELSE Inf])])
Plus(x, y) == IF x = Inf \/ y = Inf THEN Inf ELSE x + y

\* min over walks with <= 2^k edges by min-plus squaring of (identity min W)
MinPlus(X, Y, VV) ==
  [u \in VV |-> TLCEval([v \in VV |-> MinOf({Plus(X[u][m], Y[m][v]) : m \in VV})])]
RECURSIVE MpSq(_, _, _)
MpSq(X, k, VV) == IF k = 0 THEN X ELSE MpSq(TLCEval(MinPlus(X, X, VV)), k - 1, VV)
LogUp(n) == IF n <= 1 THEN 0 ELSE IF n <= 2 THEN 1 ELSE IF n <= 4 THEN 2
            ELSE IF n <= 8 THEN 3 ELSE IF n <= 16 THEN 4 ELSE IF n <= 32 THEN 5 ELSE 6
Start(g) == LET W == TLCEval(WFn(g))
            IN [u \in V(g) |-> TLCEval([v \in V(g) |-> IF u = v THEN Min2(0, W[u][u]) ELSE W[u][v]])]
\* minimal weight over walks of at most 2^ceil(log n) >= n edges
WDist(g) == IF NV(g) = 0 THEN <<>> ELSE MpSq(TLCEval(Start(g)), LogUp(NV(g)), V(g))
\* a node has a negative closed walk of at most n edges iff its entry is negative
NegNodes(wd, g) == {u \in V(g) : wd[u][u] < 0}
HasNegCycle(s) == s.neg # {}
NegReach(s, u) == \E x \in s.neg : s.wd[u][x] < Inf
NegBetween(s, u, v) == \E x \in s.neg : s.wd[u][x] < Inf /\ s.wd[x][v] < Inf
\* one row of wd; on graphs too large for the whole table (s.wd = <<>>, no negative weights there)
\* by relaxing all edges until nothing changes
RECURSIVE Relax(_, _, _)
Relax(g, inn, d) ==
  LET d2 == TLCEval([v \in V(g) |-> MinOf({d[v]} \union {Plus(d[x], g.w[x][v]) : x \in inn[v]})])
  IN  IF d2 = d THEN d ELSE Relax(g, inn, d2)
WRow(s, u) == IF s.wd # <<>> THEN s.wd[u]
              ELSE Relax(s.g, InFn(s.g), TLCEval([v \in V(s.g) |-> IF v = u THEN 0 ELSE Inf]))
NoNegWeight(g) == \A u, v \in V(g) : g.w[u][v] >= 0
Unb == {"NetworkXUnbounded", "Unbounded"}
NoP == {"NetworkXNoPath", "NoPath"}

RECURSIVE PathWeight(_, _)
PathWeight(g, p) == IF Len(p) <= 1 THEN 0 ELSE g.w[p[1]][p[2]] + PathWeight(g, Tail(p))
RealPath(g, p) == /\ Len(p) >= 1 /\ Rng(p) \subseteq V(g)
                  /\ \A i \in 1..(Len(p) - 1) : g.a[p[i]][p[i + 1]] = 1

WithinW(r, u, v, cut) == r[v] < Inf /\ (cut = <<>> \/ r[v] <= cut[1] \/ u = v)

WeightedVerdict(s, e) ==
  LET g == s.g  o == e.o IN
  CASE e.op = "ss_bf" ->
         IF e.u \notin V(g) THEN If(Raises(o, ENotFound), "ss_bf.missing")
         ELSE IF NegReach(s, e.u) THEN
              IF e.cut # <<>> THEN "" ELSE If(Raises(o, Unb), "ss_bf.unbounded")
         ELSE LET r == TLCEval(WRow(s, e.u)) IN
              If(IsMap(o, {v \in V(g) : WithinW(r, e.u, v, e.cut)}, LAMBDA v : r[v]), "ss_bf.map")
    [] e.op = "ap_bf" ->
         LET R == IF e.all THEN V(g) ELSE Rng(e.S)
             d == IF s.wd = <<>> THEN TLCEval([u \in R |-> WRow(s, u)]) ELSE s.wd IN
         IF \E u \in R : NegReach(s, u) THEN If(Raises(o, Unb), "ap_bf.unbounded")
         ELSE If(IsMM(o, R, {p \in R \X V(g) : d[p[1]][p[2]] < Inf}, LAMBDA u, v : d[u][v]), "ap_bf.map")
    [] e.op = "bf_len" ->
         IF {e.u, e.v} \ V(g) # {} THEN If(Raises(o, ENotFound), "bf_len.missing")
         ELSE LET d == WRow(s, e.u)[e.v] IN
              IF d = Inf
              THEN If(Raises(o, NoP \union (IF NegReach(s, e.u) THEN Unb ELSE {})), "bf_len.nopath")
         ELSE IF NegBetween(s, e.u, e.v)
              THEN IF e.u = e.v THEN If(Raises(o, Unb) \/ IsInt(o, 0), "bf_len.self")
                   ELSE If(Raises(o, Unb), "bf_len.unbounded")
         ELSE If(IsInt(o, d) \/ (NegReach(s, e.u) /\ Raises(o, Unb)), "bf_len.value")
    [] e.op = "bf_path" ->
         IF {e.u, e.v} \ V(g) # {} THEN If(Raises(o, ENotFound), "bf_path.missing")
         ELSE LET d == WRow(s, e.u)[e.v] IN
              IF d = Inf
              THEN If(Raises(o, NoP \union (IF NegReach(s, e.u) THEN Unb ELSE {})), "bf_path.nopath")
         ELSE IF NegBetween(s, e.u, e.v)
              THEN IF e.u = e.v THEN If(Raises(o, Unb) \/ (o.k = "list" /\ o.v = <<e.u>>), "bf_path.self")
                   ELSE If(Raises(o, Unb), "bf_path.unbounded")
         ELSE IF o.k = "exc" THEN If(NegReach(s, e.u) /\ Raises(o, Unb), "bf_path.raises")
         ELSE IF ~(o.k = "list" /\ RealPath(g, o.v)) THEN "bf_path.not-a-path"
         ELSE IF ~(o.v[1] = e.u /\ o.v[Len(o.v)] = e.v) THEN "bf_path.ends"
         ELSE IF e.u = e.v /\ o.v # <<e.u>> THEN "bf_path.trivial"
         ELSE If(PathWeight(g, o.v) = d, "bf_path.weight")
    [] e.op = "negcycle" -> If(IsBool(o, HasNegCycle(s)), "negcycle.value")
    [] e.op = "fw" ->      \* e.unw: unweighted; distances as mapping of mappings
         IF HasNegCycle(s) /\ ~e.unw THEN ""
         ELSE LET d == IF e.unw THEN s.h ELSE s.wd IN
              If(IsMM(o, V(g), {p \in V(g) \X V(g) : d[p[1]][p[2]] < Inf}, LAMBDA u, v : d[u][v]), "fw.map")
    [] e.op = "fw_np" ->   \* e.nl: node list
         IF ~(NoDup(e.nl) /\ Rng(e.nl) = V(g)) THEN If(Raises(o, ENX), "fw_np.nodelist")
         ELSE IF HasNegCycle(s) /\ ~e.unw THEN ""
         ELSE LET d == IF e.unw THEN s.h ELSE s.wd IN
              If(/\ o.k = "mat" /\ Len(o.v) = NV(g)
                 /\ \A i \in 1..NV(g) : Len(o.v[i]) = NV(g) /\ \A j \in 1..NV(g) :
                       o.v[i][j] = (IF d[e.nl[i]][e.nl[j]] = Inf THEN PInf ELSE d[e.nl[i]][e.nl[j]]), "fw_np.matrix")
    [] e.op = "fw_pred" -> \* o: mm of predecessors; o.d: mm of distances, total in both arguments
         IF HasNegCycle(s) /\ ~e.unw THEN ""
         ELSE IF o.k # "mm" THEN "fw_pred.kind"
         ELSE LET d == IF e.unw THEN s.h ELSE s.wd
                  W(x, y) == IF e.unw THEN 1 ELSE g.w[x][y]
                  P == [q \in Pairs(o) |-> LET i == CHOOSE i \in 1..Len(o.v) : <<o.v[i][1], o.v[i][2]>> = q IN o.v[i][3]]
                  D == {q \in V(g) \X V(g) : q[1] # q[2] /\ d[q[1]][q[2]] < Inf}
                  RECURSIVE Back(_, _, _)
                  Back(u, v, k) == u = v \/ (k > 0 /\ <<u, v>> \in D /\ Back(u, P[<<u, v>>], k - 1))
              IN  IF ~(Cardinality(Pairs(o)) = Len(o.v) /\ Pairs(o) = D) THEN "fw_pred.domain"
                  ELSE IF \E q \in D : ~(/\ P[q] \in V(g) /\ P[q] # q[2] /\ g.a[P[q]][q[2]] = 1
                                         /\ d[q[1]][P[q]] < Inf
                                         /\ d[q[1]][P[q]] + W(P[q], q[2]) = d[q[1]][q[2]]) THEN "fw_pred.edge"
                  ELSE IF \E q \in D : ~Back(q[1], q[2], NV(g)) THEN "fw_pred.walk-back"
                  ELSE If(/\ \A i \in 1..Len(o.d) : o.d[i][3] =
                              (IF d[o.d[i][1]][o.d[i][2]] = Inf THEN PInf ELSE d[o.d[i][1]][o.d[i][2]])
                          /\ {<<o.d[i][1], o.d[i][2]>> : i \in 1..Len(o.d)} = V(g) \X V(g)
                          /\ Len(o.d) = NV(g) * NV(g), "fw_pred.distance")
WeightedOps == {"ss_bf", "ap_bf", "bf_len", "bf_path", "negcycle", "fw", "fw_np", "fw_pred"}
=============================================================================
