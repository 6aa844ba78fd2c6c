-------------------------------- MODULE BfsModel --------------------------------
(***************************************************************************)
(* L2: the level-synchronous sweep behind sssp / stsp / apsp / bfs_layers  *)
(* / descendants / has_path: a frontier q, a sparse level vector v, an     *)
(* iteration counter, an optional cutoff and an optional early exit at a   *)
(* target.  Checked: the loop invariant, and that the final answer is one  *)
(* the specification of the call accepts.                                  *)
(***************************************************************************)
EXTENDS SmallGraphs
VARIABLES g, src, dst, cut, v, q, i, done
vars == <<g, src, dst, cut, v, q, i, done>>
Limit == IF cut = <<>> \/ cut[1] >= NV(g) THEN NV(g) ELSE cut[1] + 1
Init == /\ IsSmall(g)
        /\ src \in V(g) /\ dst \in V(g) \union {0} /\ cut \in {<<>>} \union {<<c>> : c \in 0..(N + 1)}
        /\ v = [x \in {src} |-> 0] /\ q = {src} /\ i = 1 /\ done = FALSE
Step == /\ ~done /\ i < Limit
        /\ LET q2 == (UNION {OutX(g, x) : x \in q}) \ DOMAIN v
               v2 == Merge(v, [x \in q2 |-> i]) IN
           /\ v' = v2 /\ q' = q2 /\ i' = i + 1
           /\ done' = (q2 = {} \/ dst \in q2)
        /\ UNCHANGED <<g, src, dst, cut>>
Stop == ~done /\ i >= Limit /\ done' = TRUE /\ UNCHANGED <<g, src, dst, cut, v, q, i>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

H == HopFrom(OutFn(g), {src})
\* after i - 1 rounds exactly the nodes within i - 1 hops have a level, and it is their distance
LoopInvariant ==
  (q # {} \/ ~done) => /\ DOMAIN v = {x \in V(g) : H[x] <= i - 1}
                       /\ \A x \in DOMAIN v : v[x] = H[x]
                       /\ q = {x \in V(g) : H[x] = i - 1}
Answer ==
  done => LET s == [g |-> g, h |-> HopDist(OutFn(g)), wd |-> <<>>, neg |-> {}] IN
    /\ dst = 0 => ReachVerdict(s, [op |-> "sssp", u |-> src, cut |-> cut, o |-> MapOf(v)]) = ""
    /\ (dst = 0 /\ cut = <<>>) =>
          ReachVerdict(s, [op |-> "descendants", u |-> src, o |-> [k |-> "set", v |-> SetToSeq(DOMAIN v \ {src})]]) = ""
    /\ (dst # 0 /\ cut = <<>>) =>
          ReachVerdict(s, [op |-> "has_path", u |-> src, v |-> dst, o |-> [k |-> "bool", v |-> dst \in DOMAIN v]]) = ""
Terminates == <>done
=============================================================================
