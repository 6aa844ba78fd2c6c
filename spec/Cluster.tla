-------------------------------- MODULE Cluster --------------------------------
(***************************************************************************)
(* Triangles, clustering coefficients, transitivity, generalized degree,   *)
(* square clustering.  Definitions over the sets of distinct neighbours;   *)
(* self-loops never count.                                                 *)
(***************************************************************************)
EXTENDS Outcome

\* number of ordered pairs of distinct adjacent neighbours / 2 = triangles at u (undirected)
TriSet(nb, u) == {p \in nb[u] \X nb[u] : p[2] \in nb[p[1]]}
Tri(nb, u) == Cardinality(TriSet(nb, u)) \div 2

\* integer cube root of a perfect cube, -1 otherwise
Cbrt(x) == LET K == {k \in 0..10 : k * k * k = x} IN IF K = {} THEN -1 ELSE MinOf(K)
XEdges(g) == {p \in Edges(g) : p[1] # p[2]}
MaxW(g) == LET S == {g.w[p[1]][p[2]] : p \in XEdges(g)} IN IF S = {} THEN 0 ELSE MaxOf(S)
LoopMax(g) == LET S == {g.w[u][u] : u \in Loops(g)} IN IF S = {} THEN 0 ELSE MaxOf(S)
\* weighted clustering is specified for weights that are perfect cubes, the maximum not attained by a
\* self-loop alone (NetworkX and the library normalise differently there)
WOk(g) == /\ \A p \in Edges(g) : Cbrt(g.w[p[1]][p[2]]) >= 0
          /\ \/ XEdges(g) = {}
             \/ LoopMax(g) <= MaxW(g) /\ MaxW(g) > 0
CW(g) == TLCEval([u \in V(g) |-> TLCEval([v \in V(g) |->
            IF u # v /\ g.a[u][v] = 1 THEN Cbrt(g.w[u][v]) ELSE 0])])
Unit(g) == TLCEval([u \in V(g) |-> TLCEval([v \in V(g) |-> IF u # v THEN g.a[u][v] ELSE 0])])

\* sum over v, w of b_uv b_vw b_wu with b = c + c^T (directed) or c (undirected); only neighbours v, w count
Closed3(b(_, _), N, u) == SumOver(N, LAMBDA v : b(u, v) * SumOver(N, LAMBDA w : b(v, w) * b(w, u)))

\* clustering coefficient of u as a pair <<numerator, denominator>>
CC(g, c, m, u) ==
  IF g.dir
  THEN LET dt == Cardinality(OutX(g, u)) + Cardinality(InX(g, u))
           dr == Cardinality(OutX(g, u) \cap InX(g, u))
           den == 2 * (dt * (dt - 1) - 2 * dr)
           num == Closed3(LAMBDA x, y : c[x][y] + c[y][x], NbrX(g, u), u)
       IN IF num = 0 THEN <<0, 1>> ELSE <<num, den * m>>
  ELSE LET d == Cardinality(OutX(g, u))
           num == Closed3(LAMBDA x, y : c[x][y], OutX(g, u), u)
       IN IF num = 0 THEN <<0, 1>> ELSE <<num, d * (d - 1) * m>>
CCAll(g, wt, S) == LET c == IF wt THEN CW(g) ELSE Unit(g)
                       m == IF wt /\ XEdges(g) # {} THEN MaxW(g) ELSE 1
                   IN TLCEval([u \in S |-> TLCEval(CC(g, c, m, u))])

\* nodes that are not in the graph are ignored in a collection
SelNodes(g, e) == IF e.sel = "all" THEN V(g) ELSE IF e.sel = "one" THEN {e.u} ELSE Rng(e.S) \cap V(g)
IsMapN(o, D, R(_, _)) == IsMapR(o, D, R)

\* generalized degree: number of edges of u lying in exactly k triangles
GD(nb, u) == LET t == [v \in nb[u] |-> Cardinality(nb[u] \cap nb[v])]
             IN  {<<u, k, Cardinality({v \in nb[u] : t[v] = k})>> : k \in {t[v] : v \in nb[u]}}

\* square clustering (Lind et al.): <<squares, potential>> at u
SqPairs(nb, u) == {p \in nb[u] \X nb[u] : p[1] < p[2]}
SqN(nb, u, p) == Cardinality((nb[p[1]] \cap nb[p[2]]) \ {u})
SqNum(nb, u) == SumOver(SqPairs(nb, u), LAMBDA p : SqN(nb, u, p))
SqDen(nb, u) == SumOver(SqPairs(nb, u), LAMBDA p :
     LET q == SqN(nb, u, p)
         m == q + 1 + B2I(p[2] \in nb[p[1]])
     IN (Cardinality(nb[p[1]]) - m) + (Cardinality(nb[p[2]]) - m) + q)
Sq(nb, u) == LET n == SqNum(nb, u) IN IF n = 0 THEN <<0, 1>> ELSE <<n, SqDen(nb, u)>>

TolC == 2
RatIs(x, r) == RatEq(x, r[1], r[2], TolC)

ClusterVerdict(s, e) ==
  LET g == s.g  o == e.o
      nb == OutFn(g)
      S == SelNodes(g, e)
  IN
  IF e.sel = "one" /\ e.u \notin V(g) THEN If(NoNodeOk(o), e.op \o ".notfound")
  ELSE
  CASE e.op = "transitivity" ->
         LET num == SumOver(V(g), LAMBDA u : Cardinality(TriSet(nb, u)))
             tri == IF g.dir THEN SumOver(V(g), LAMBDA u : SumOver(nb[u], LAMBDA v : Cardinality(nb[u] \cap nb[v])))
                    ELSE num
             den == SumOver(V(g), LAMBDA u : Cardinality(nb[u]) * (Cardinality(nb[u]) - 1))
         IN If(IsRat(o, tri, IF tri = 0 THEN 1 ELSE den, TolC), "transitivity.value")
    [] e.op = "avg_clust" ->
         LET Z == S IN
         IF Z = {} THEN If(Raises(o, {"ZeroDivisionError"}), "avg_clust.empty")
         ELSE IF e.wt /\ ~WOk(g) THEN ""
         ELSE LET cc == CCAll(g, e.wt, Z)
                  P == {u \in Z : cc[u][1] # 0}
                  cnt == IF e.cz THEN Cardinality(Z) ELSE Cardinality(P)
              IN IF cnt = 0 THEN If(Raises(o, {"ZeroDivisionError"}), "avg_clust.no-nonzero")
                 ELSE If(o.k = "num" /\ Near(o.v, SumOver(P, LAMBDA u : RatFix(cc[u][1], cc[u][2])) \div cnt,
                              3 + (Cardinality(P) \div cnt)), "avg_clust.value")
    [] e.op = "triangles" ->
         IF e.sel = "one" THEN If(IsInt(o, Tri(nb, e.u)), "triangles.single")
         ELSE If(IsMap(o, S, LAMBDA u : Tri(nb, u)), "triangles.map")
    [] e.op = "clustering" ->
         IF e.wt /\ ~WOk(g) THEN ""
         ELSE LET cc == CCAll(g, e.wt, IF e.sel = "one" THEN {e.u} ELSE S) IN
              IF e.sel = "one" THEN If(IsNumV(o) /\ RatIs(o.v, cc[e.u]), "clustering.single")
              ELSE If(IsMapR(o, S, LAMBDA u, x : RatIs(x, cc[u])), "clustering.map")
    [] e.op = "gen_degree" ->
         LET W == UNION {GD(nb, u) : u \in S} IN
         If(/\ o.k = "cnt" /\ NoDup(o.r) /\ Rng(o.r) = S
            /\ Len(o.v) = Cardinality(W)
            /\ {<<o.v[i][1], o.v[i][2], o.v[i][3]>> : i \in 1..Len(o.v)} = W, "gen_degree")
    [] e.op = "sq_clust" ->
         IF HasLoops(g) THEN ""
         ELSE IF e.sel = "one" THEN If(IsNumV(o) /\ RatIs(o.v, Sq(nb, e.u)), "sq_clust.single")
         ELSE If(IsMapR(o, S, LAMBDA u, x : RatIs(x, Sq(nb, u))), "sq_clust.map")
ClusterOps == {"transitivity", "avg_clust", "triangles", "clustering", "gen_degree", "sq_clust"}
=============================================================================
