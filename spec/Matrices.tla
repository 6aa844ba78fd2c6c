------------------------------- MODULE Matrices -------------------------------
(***************************************************************************)
(* Matrices for linear algebra.  Row and column i belong to the i-th node  *)
(* of the requested node list (the graph's own order when none is given).  *)
(* wt: the weights are used, otherwise every edge counts 1.  All integer   *)
(* quantities below are in units of 1/U, U = sc when weighted, else 1.     *)
(***************************************************************************)
EXTENDS Outcome

MatOk(o, n) == o.k = "mat" /\ Len(o.v) = n /\ \A i \in 1..n : Len(o.v[i]) = n
\* bad node lists: empty graph or list, unknown nodes, repetitions
BadList(g, e) == NV(g) = 0 \/ (e.nl # <<>> /\ (e.nl[1] = <<>> \/ ~(Rng(e.nl[1]) \subseteq V(g)) \/ ~NoDup(e.nl[1])))

\* x (in 1e4 units) is +-a/sqrt(p), for 0 <= a <= 4, p >= 1
SqrtIs(x, a, p) == /\ x >= -40000 /\ x <= 40000
                   /\ LET X == Abs(x) IN (X - 1) * (X - 1) * p <= a * a * 100000000 \/ X <= 1
                   /\ LET X == Abs(x) IN (X + 1) * (X + 1) * p >= a * a * 100000000

MatricesVerdict(s, e) ==
  LET g == s.g  o == e.o
      nl == IF e.nl = <<>> THEN g.nd ELSE e.nl[1]
      n == Len(nl)
      L == Rng(nl)
      U == IF e.wt THEN g.sc ELSE 1
      a == TLCEval([u \in L |-> TLCEval([v \in L |-> IF e.wt THEN g.w[u][v] ELSE g.a[u][v]])])
      rs == TLCEval([u \in L |-> SumOver(L, LAMBDA v : a[u][v])])
      cs == TLCEval([u \in L |-> SumOver(L, LAMBDA v : a[v][u])])
      tot == SumOver(L, LAMBDA u : rs[u])
      Every(R(_, _, _)) == MatOk(o, n) /\ \A i \in 1..n : \A j \in 1..n : R(nl[i], nl[j], o.v[i][j])
  IN
  IF e.op \in {"modularity_matrix", "bethe_hessian_matrix"} /\ g.dir THEN If(Raises(o, ENotImpl), e.op \o ".directed")
  ELSE IF e.op = "directed_modularity_matrix" /\ ~g.dir THEN If(Raises(o, ENotImpl), e.op \o ".undirected")
  ELSE IF BadList(g, e) THEN If(Raises(o, ENX), e.op \o ".nodelist")
  ELSE
  CASE e.op = "adjacency_matrix" -> If(Every(LAMBDA u, v, x : x = a[u][v]), "adjacency_matrix")
    [] e.op = "laplacian_matrix" ->
         If(Every(LAMBDA u, v, x : x = (IF u = v THEN rs[u] ELSE 0) - a[u][v]), "laplacian_matrix")
    [] e.op = "normalized_laplacian_matrix" ->
         \* only for weights 0..4; L = I' - D^-1/2 A D^-1/2 where rows and columns of degree 0 are empty
         IF \E u \in L : \E v \in L : a[u][v] \notin 0..4 \/ U # 1 THEN ""
         ELSE If(Every(LAMBDA u, v, x :
                IF rs[u] = 0 \/ rs[v] = 0 THEN x = 0
                ELSE LET y == (IF u = v THEN 10000 ELSE 0) - x IN y >= -2 /\ SqrtIs(y, a[u][v], rs[u] * rs[v])),
                "normalized_laplacian_matrix")
    [] e.op \in {"modularity_matrix", "directed_modularity_matrix"} ->
         IF tot <= 0 THEN ""
         ELSE If(Every(LAMBDA u, v, x : RatEq(x, a[u][v] * tot - rs[u] * cs[v], tot * U, 2)), e.op)
    [] e.op = "bethe_hessian_matrix" ->
         LET deg == TLCEval([u \in V(g) |-> Cardinality(OutN(g, u))])
             k == SumOver(V(g), LAMBDA u : deg[u])
             k2 == SumOver(V(g), LAMBDA u : deg[u] * deg[u])
             rn == IF e.r = <<>> THEN k2 - k ELSE e.r[1]
             rd == IF e.r = <<>> THEN k ELSE e.r[2]
         IN IF rd = 0 THEN If(Raises(o, {"ZeroDivisionError"}), "bethe_hessian_matrix.edgeless")
            ELSE If(Every(LAMBDA u, v, x :
                 RatEq(x, (IF u = v THEN (rn * rn - rd * rd) * U + rs[u] * rd * rd ELSE 0) - rn * rd * a[u][v],
                       rd * rd * U, 5)), "bethe_hessian_matrix")
MatricesOps == {"adjacency_matrix", "laplacian_matrix", "normalized_laplacian_matrix", "modularity_matrix",
  "directed_modularity_matrix", "bethe_hessian_matrix"}
=============================================================================
