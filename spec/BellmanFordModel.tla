---------------------------- MODULE BellmanFordModel ----------------------------
(***************************************************************************)
(* L2: the Bellman-Ford variant of the library: a frontier `cur` of values *)
(* that improved in the last round, self-loops set aside, cutoff applied   *)
(* to the frontier, a target used as a moving cutoff when no weight is     *)
(* negative, a negative cycle detected by one more round when the loop     *)
(* never ran dry, negative self-loops looked at in the end.  A cutoff is   *)
(* only promised on non-negative weights: with negative ones the frontier  *)
(* is cut before it can become light again (TLC shows that behaviour when  *)
(* the guard in Init is dropped).                                          *)
(***************************************************************************)
EXTENDS SmallGraphs
VARIABLES g, src, dst, cut0, cut, d, cur, i, pc, out
vars == <<g, src, dst, cut0, cut, d, cur, i, pc, out>>
A == Off(g)
NegOff == \E p \in DOMAIN A : A[p] < 0
NegDiag == {u \in Loops(g) : g.w[u][u] < 0}
Init == /\ IsSmall(g)
        /\ src \in V(g) /\ dst \in V(g) \union {0}
        /\ cut0 \in {<<>>} \union (IF dst = 0 /\ \A p \in DOMAIN A : A[p] >= 0 THEN {<<0>>, <<1>>, <<2>>} ELSE {}) /\ cut = cut0
        /\ d = [x \in {src} |-> 0] /\ cur = d /\ i = 0 /\ pc = "loop" /\ out = [k |-> "none"]
\* min-plus product of the frontier with the off-diagonal adjacency matrix
Relaxed == LET R == {p[2] : p \in {q \in DOMAIN A : q[1] \in DOMAIN cur}} IN
   [x \in R |-> MinOf({cur[p[1]] + A[p] : p \in {q \in DOMAIN A : q[1] \in DOMAIN cur /\ q[2] = x}})]
Below(f) == IF cut = <<>> THEN f ELSE Pick(f, {x \in DOMAIN f : f[x] <= cut[1]})
Better(f) == {x \in DOMAIN f : x \notin DOMAIN d \/ f[x] < d[x]}
Loop == /\ pc = "loop" /\ i < NV(g) - 1
        /\ LET c == Below(Relaxed)  c2 == Pick(c, Better(c)) IN
           /\ cur' = c2 /\ i' = i + 1
           /\ IF DOMAIN c2 = {} THEN pc' = "diag" /\ UNCHANGED <<d, cut>>
              ELSE /\ d' = Merge(d, c2) /\ pc' = "loop"
                   /\ cut' = IF dst # 0 /\ ~NegOff /\ NegDiag = {} /\ dst \in DOMAIN c2 THEN <<c2[dst]>> ELSE cut
        /\ UNCHANGED <<g, src, dst, cut0, out>>
\* the loop was exhausted with a non-empty frontier: one more round
Extra == /\ pc = "loop" /\ i >= NV(g) - 1
         /\ LET c == Below(Relaxed)
                worse == {x \in DOMAIN c : x \in DOMAIN d /\ c[x] < d[x]}
                h == HopDist(OutFn(g))
                bad == IF dst = 0 THEN worse # {} ELSE \E x \in worse : h[x][dst] < Inf IN
            /\ cur' = c
            /\ IF bad THEN pc' = "done" /\ out' = [k |-> "exc", c |-> <<"NetworkXUnbounded">>]
                      ELSE pc' = "diag" /\ UNCHANGED out
         /\ UNCHANGED <<g, src, dst, cut0, cut, d, i>>
Diag == /\ pc = "diag" /\ pc' = "done"
        /\ out' = IF NegDiag \cap DOMAIN d # {} THEN [k |-> "exc", c |-> <<"NetworkXUnbounded">>]
                  ELSE IF dst = 0 THEN MapOf(d)
                  ELSE IF dst \in DOMAIN d THEN [k |-> "int", v |-> d[dst]]
                  ELSE [k |-> "exc", c |-> <<"NetworkXNoPath">>]
        /\ UNCHANGED <<g, src, dst, cut0, cut, d, cur, i>>
Next == Loop \/ Extra \/ Diag
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Answer ==
  pc = "done" => LET s == TLCEval(Full(g)) IN
    IF dst = 0 THEN WeightedVerdict(s, [op |-> "ss_bf", u |-> src, cut |-> cut0, o |-> out]) = ""
    ELSE WeightedVerdict(s, [op |-> "bf_len", u |-> src, v |-> dst, o |-> out]) = ""
\* every value held is the weight of a real walk: never below the true distance when no negative cycle is reached
Sound == LET s == TLCEval(Full(g)) IN ~NegReach(s, src) => \A x \in DOMAIN d : d[x] >= s.wd[src][x]
Terminates == <>(pc = "done")
=============================================================================
