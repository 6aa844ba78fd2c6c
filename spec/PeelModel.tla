------------------------------- MODULE PeelModel -------------------------------
(***************************************************************************)
(* L2: k-truss by peeling.  The code removes all unsupported edges at      *)
(* once; here any non-empty set of unsupported edges may go in a step.     *)
(* Whatever the order, peeling ends in the same place: the k-truss.        *)
(***************************************************************************)
EXTENDS SmallGraphs, Sub
VARIABLES g, k, E
vars == <<g, k, E>>
SymP(x) == {p \in Edges(x) : p[1] < p[2]}
Both(S) == S \union {<<p[2], p[1]>> : p \in S}
Support(S, p) == Cardinality({x \in V(g) : {<<p[1], x>>, <<x, p[2]>>} \subseteq Both(S)})
Weak == {p \in E : Support(E, p) < k - 2}
Init == IsSmall(g) /\ k \in 2..5 /\ E = SymP(g)
Next == \E X \in SUBSET Weak \ {{}} : E' = E \ X /\ UNCHANGED <<g, k>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Confluent == Weak = {} => Both(E) = TrussE(g, k)
NeverTooFar == TrussE(g, k) \subseteq Both(E)
Terminates == <>(Weak = {})
=============================================================================
