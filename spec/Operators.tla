------------------------------- MODULE Operators -------------------------------
(***************************************************************************)
(* Graph operators.  They take one or two graphs of the store and create a *)
(* new one.  Operands are aligned by label; the node order of the result   *)
(* is the order of the first operand followed by the new nodes of the      *)
(* second.  When an operator relabels (rename prefixes, disjoint union)    *)
(* the outcome lives in the doubled universe 1..2N: label u of the first   *)
(* operand is u, label v of the second operand is N + v.                   *)
(***************************************************************************)
EXTENDS Outcome

SelSeq(s, S) == SelectSeq(s, LAMBDA x : x \in S)
OrderedPlus(g, h) == g.nd \o SelSeq(h.nd, V(h) \ V(g))

\* the logged graph is exactly (nd, dir, E, weight function W); wt: compare weights
GraphIs(o, nd, dir, E, W(_, _), wt, name) ==
  IF o.k # "graph" THEN name \o ".kind"
  ELSE IF o.g.dir # dir THEN name \o ".direction"
  ELSE IF Rng(o.g.nd) # Rng(nd) \/ Len(o.g.nd) # Len(nd) THEN name \o ".nodes"
  ELSE IF o.g.nd # nd THEN name \o ".order"
  ELSE IF Edges(o.g) # E \/ ~WellFormed(o.g) THEN name \o ".edges"
  ELSE If(~wt \/ \A p \in E : o.g.w[p[1]][p[2]] = W(p[1], p[2]), name \o ".weights")

Shift(s, N) == [i \in 1..Len(s) |-> s[i] + N]
JoinNd(g, h, N) == g.nd \o Shift(h.nd, N)
JoinE(g, h, N)  == Edges(g) \union {<<p[1] + N, p[2] + N>> : p \in Edges(h)}
JoinW(g, h, N, u, v) == IF u <= N /\ v <= N THEN g.w[u][v] ELSE IF u > N /\ v > N THEN h.w[u - N][v - N] ELSE g.sc
CrossE(g, h, N) == (V(g) \X {v + N : v \in V(h)}) \union ({v + N : v \in V(h)} \X V(g))

One(sc, u, v) == sc
Mixed == {"NetworkXError"}

OperatorsVerdict(st, e) ==
  LET s == st[e.g]  g == s.g  o == e.o
      h == st[e.g2].g
      N == Len(g.a)
      same == V(g) = V(h)
      disj == V(g) \cap V(h) = {}
      mixed == g.dir # h.dir
      B == {p \in V(h) \X V(h) : h.a[p[1]][p[2]] = 1}
  IN
  CASE e.op = "union" ->
         IF mixed \/ ~disj THEN If(Raises(o, ENX), "union.refuse")
         ELSE GraphIs(o, g.nd \o h.nd, g.dir, Edges(g) \union B,
                LAMBDA u, v : IF u \in V(g) THEN g.w[u][v] ELSE h.w[u][v], e.wt, "union")
    [] e.op = "full_join" ->
         IF mixed \/ ~disj THEN If(Raises(o, ENX), "full_join.refuse")
         ELSE GraphIs(o, g.nd \o h.nd, g.dir, Edges(g) \union B \union (V(g) \X V(h)) \union (V(h) \X V(g)),
                LAMBDA u, v : IF u \in V(g) /\ v \in V(g) THEN g.w[u][v]
                              ELSE IF u \in V(h) /\ v \in V(h) THEN h.w[u][v] ELSE g.sc, e.wt, "full_join")
    [] e.op = "union_rn" ->      \* e.clash: the chosen prefixes make two labels equal
         IF mixed \/ e.clash THEN If(Raises(o, ENX), "union_rn.refuse")
         ELSE GraphIs(o, JoinNd(g, h, N), g.dir, JoinE(g, h, N), LAMBDA u, v : JoinW(g, h, N, u, v), e.wt, "union_rn")
    [] e.op = "full_join_rn" ->
         IF mixed \/ e.clash THEN If(Raises(o, ENX), "full_join_rn.refuse")
         ELSE GraphIs(o, JoinNd(g, h, N), g.dir, JoinE(g, h, N) \union CrossE(g, h, N),
                LAMBDA u, v : JoinW(g, h, N, u, v), e.wt, "full_join_rn")
    [] e.op = "disjoint_union" ->
         IF mixed THEN If(Raises(o, ENX), "disjoint_union.refuse")
         ELSE GraphIs(o, JoinNd(g, h, N), g.dir, JoinE(g, h, N), LAMBDA u, v : JoinW(g, h, N, u, v), e.wt, "disjoint_union")
    [] e.op = "intersection" ->
         IF mixed THEN If(Raises(o, ENX), "intersection.refuse")
         ELSE GraphIs(o, SelSeq(g.nd, V(h)), g.dir, Edges(g) \cap B, LAMBDA u, v : g.sc, TRUE, "intersection")
    [] e.op = "difference" ->
         IF ~same THEN If(Raises(o, ENX), "difference.refuse")
         ELSE IF mixed THEN ""
         ELSE GraphIs(o, g.nd, g.dir, Edges(g) \ B, LAMBDA u, v : g.sc, TRUE, "difference")
    [] e.op = "symmetric_difference" ->
         IF ~same THEN If(Raises(o, ENX), "symmetric_difference.refuse")
         ELSE IF mixed THEN ""
         ELSE GraphIs(o, g.nd, g.dir, (Edges(g) \ B) \union (B \ Edges(g)), LAMBDA u, v : g.sc, TRUE,
                "symmetric_difference")
    [] e.op = "compose" ->
         IF mixed THEN If(Raises(o, ENX), "compose.refuse")
         ELSE GraphIs(o, OrderedPlus(g, h), g.dir, Edges(g) \union B,
                LAMBDA u, v : IF <<u, v>> \in B THEN h.w[u][v] ELSE g.w[u][v], e.wt, "compose")
    [] e.op = "complement" ->
         GraphIs(o, g.nd, g.dir, {p \in V(g) \X V(g) : p[1] # p[2] /\ g.a[p[1]][p[2]] = 0}, LAMBDA u, v : g.sc, TRUE,
            "complement")
    [] e.op = "reverse" ->
         IF ~g.dir THEN If(Raises(o, ENX), "reverse.undirected")
         ELSE GraphIs(o, g.nd, TRUE, {<<p[2], p[1]>> : p \in Edges(g)}, LAMBDA u, v : g.w[v][u], e.wt, "reverse")
    [] e.op = "to_undirected" ->     \* DiGraph.to_undirected(reciprocal=)
         GraphIs(o, g.nd, FALSE,
            {p \in V(g) \X V(g) : IF e.recip THEN g.a[p[1]][p[2]] = 1 /\ g.a[p[2]][p[1]] = 1
                                  ELSE g.a[p[1]][p[2]] = 1 \/ g.a[p[2]][p[1]] = 1},
            LAMBDA u, v : IF g.a[u][v] = 1 /\ (g.a[v][u] = 0 \/ g.w[u][v] = o.g.w[u][v]) THEN g.w[u][v] ELSE g.w[v][u],
            TRUE, "to_undirected")
OperatorsOps == {"union", "full_join", "union_rn", "full_join_rn", "disjoint_union", "intersection", "difference",
  "symmetric_difference", "compose", "complement", "reverse", "to_undirected"}
=============================================================================
