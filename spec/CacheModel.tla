------------------------------- MODULE CacheModel -------------------------------
(***************************************************************************)
(* L2: the property cache of a graph object.  The state is the cache: a    *)
(* partial function from property names to values.  A read computes a      *)
(* missing property by *some* rule whose inputs are cached already (the    *)
(* code has a fixed preference among these rules, here any of them may     *)
(* fire) and may cache further properties as a side effect.  Claim: in     *)
(* every reachable cache every entry is the value its name stands for, so  *)
(* a read never depends on the reads before it.                            *)
(***************************************************************************)
EXTENDS SmallGraphs
CONSTANTS GROUP
VARIABLES g, cache
vars == <<g, cache>>
E == Edges(g)
WtOf(S) == [p \in S |-> g.w[p[1]][p[2]]]
Tri_(S) == {p \in S : p[1] <= p[2]}
Count(S, k) == LET K == {p[k] : p \in S} IN [u \in K |-> Cardinality({p \in S : p[k] = u})]
AddF(f, h) == [x \in DOMAIN f \union DOMAIN h |-> (IF x \in DOMAIN f THEN f[x] ELSE 0) + (IF x \in DOMAIN h THEN h[x] ELSE 0)]
Drop0(f) == [x \in {y \in DOMAIN f : f[y] # 0} |-> f[x]]
MinusF(f, h) == [x \in DOMAIN f \union DOMAIN h |-> (IF x \in DOMAIN f THEN f[x] ELSE 0) - (IF x \in DOMAIN h THEN h[x] ELSE 0)]
Recip_(S) == {p \in S : <<p[2], p[1]>> \in S}
RowsOf(S) == Count(S, 1)
MinS(f) == IF DOMAIN f = {} THEN {} ELSE {MinOf({f[p] : p \in DOMAIN f})}      \* {} : no value
NegS(S) == \E x \in S : x < 0
Sum_(f) == SumOver(DOMAIN f, LAMBDA x : f[x])
L_ == {p \in E : p[1] = p[2]}
O_ == E \ L_

\* what each name stands for
Decl(p) ==
  CASE p = "self" -> L_ # {}
    [] p = "off" -> WtOf(O_)
    [] p = "U+" -> WtOf({q \in E : q[1] <= q[2]})
    [] p = "U-" -> WtOf({q \in E : q[1] < q[2]})
    [] p = "L+" -> WtOf({q \in E : q[1] >= q[2]})
    [] p = "L-" -> WtOf({q \in E : q[1] > q[2]})
    [] p = "diag" -> [u \in {q[1] : q \in L_} |-> g.w[u][u]]
    [] p = "r+" -> Count(E, 1) [] p = "r-" -> Count(O_, 1)
    [] p = "c+" -> Count(E, 2) [] p = "c-" -> Count(O_, 2)
    [] p = "q+" -> RowsOf(Recip_(E)) [] p = "q-" -> RowsOf(Recip_(O_))
    [] p = "t+" -> AddF(Count(E, 1), Count(E, 2)) [] p = "t-" -> AddF(Count(O_, 1), Count(O_, 2))
    [] p = "tr+" -> Cardinality(Recip_(E)) [] p = "tr-" -> Cardinality(Recip_(O_))
    [] p = "min+" -> MinS(WtOf(E)) [] p = "min-" -> MinS(WtOf(O_)) [] p = "minD" -> MinS(WtOf(L_))
    [] p = "neg+" -> \E q \in E : g.w[q[1]][q[2]] < 0
    [] p = "neg-" -> \E q \in O_ : g.w[q[1]][q[2]] < 0
    [] p = "negD" -> \E q \in L_ : g.w[q[1]][q[2]] < 0
Names == CASE GROUP = "triangles" -> {"self", "off", "U+", "U-", "L+", "L-", "diag"}
           [] GROUP = "degrees" -> {"self", "off", "diag", "r+", "r-", "c+", "c-", "t+", "t-"}
           [] GROUP = "recip" -> {"self", "off", "diag", "L-", "U-", "q+", "q-", "tr+", "tr-"}
           [] GROUP = "signs" -> {"self", "diag", "min+", "min-", "minD", "neg+", "neg-", "negD"}
Has_(p) == p \in DOMAIN cache
C(p) == cache[p]
NoSelf == Has_("self") /\ ~C("self")
NV_(p) == Cardinality(DOMAIN C(p))
nE == Cardinality(E)

Pairs_ == {<<"U+", "U-">>, <<"L+", "L-">>, <<"off", "off">>, <<"r+", "r-">>, <<"c+", "c-">>, <<"t+", "t-">>, <<"q+", "q-">>, <<"tr+", "tr-">>}
\* the set of values some rule offers for a missing property
Offers(p) ==
  CASE p = "off" -> {WtOf(O_)} \union (IF NoSelf THEN {WtOf(E)} ELSE {})
    [] p = "U+" -> {WtOf({q \in E : q[1] <= q[2]})} \union (IF NoSelf /\ Has_("U-") THEN {C("U-")} ELSE {})
    [] p = "L+" -> {WtOf({q \in E : q[1] >= q[2]})} \union (IF NoSelf /\ Has_("L-") THEN {C("L-")} ELSE {})
    [] p = "U-" -> (IF NoSelf /\ Has_("U+") THEN {C("U+")} ELSE {})
                   \union (IF Has_("U+") THEN {Pick(C("U+"), {q \in DOMAIN C("U+") : q[1] < q[2]})} ELSE {})
                   \union (IF Has_("off") THEN {Pick(C("off"), {q \in DOMAIN C("off") : q[1] < q[2]})} ELSE {})
                   \union {WtOf({q \in E : q[1] < q[2]})}
    [] p = "L-" -> (IF NoSelf /\ Has_("L+") THEN {C("L+")} ELSE {})
                   \union (IF Has_("L+") THEN {Pick(C("L+"), {q \in DOMAIN C("L+") : q[1] > q[2]})} ELSE {})
                   \union (IF Has_("off") THEN {Pick(C("off"), {q \in DOMAIN C("off") : q[1] > q[2]})} ELSE {})
                   \union {WtOf({q \in E : q[1] > q[2]})}
    [] p = "diag" -> (IF NoSelf THEN {[u \in {} |-> 0]} ELSE {})
                   \union (IF Has_("U+") THEN {[u \in {q[1] : q \in {z \in DOMAIN C("U+") : z[1] = z[2]}} |-> C("U+")[<<u, u>>]]} ELSE {})
                   \union (IF Has_("L+") THEN {[u \in {q[1] : q \in {z \in DOMAIN C("L+") : z[1] = z[2]}} |-> C("L+")[<<u, u>>]]} ELSE {})
                   \union {[u \in {q[1] : q \in L_} |-> g.w[u][u]]}
    [] p = "r+" -> {Count(E, 1)} \union (IF NoSelf /\ Has_("r-") THEN {C("r-")} ELSE {})
    [] p = "c+" -> {Count(E, 2)} \union (IF NoSelf /\ Has_("c-") THEN {C("c-")} ELSE {})
    [] p = "r-" -> (IF NoSelf /\ Has_("r+") THEN {C("r+")} ELSE {}) \union (IF Has_("off") THEN {Count(DOMAIN C("off"), 1)} ELSE {}) \union {Count(O_, 1)}
    [] p = "c-" -> (IF NoSelf /\ Has_("c+") THEN {C("c+")} ELSE {}) \union (IF Has_("off") THEN {Count(DOMAIN C("off"), 2)} ELSE {}) \union {Count(O_, 2)}
    [] p = "t+" -> (IF NoSelf /\ Has_("t-") THEN {C("t-")} ELSE {}) \union (IF Has_("r+") /\ Has_("c+") THEN {AddF(C("r+"), C("c+"))} ELSE {})
    [] p = "t-" -> (IF NoSelf /\ Has_("t+") THEN {C("t+")} ELSE {}) \union (IF Has_("r-") /\ Has_("c-") THEN {AddF(C("r-"), C("c-"))} ELSE {})
    [] p = "q+" -> (IF NoSelf /\ Has_("q-") THEN {C("q-")} ELSE {})
                   \union (IF Has_("q-") /\ Has_("diag") THEN {AddF([u \in DOMAIN C("diag") |-> 1], C("q-"))} ELSE {})
                   \union {RowsOf(Recip_(E))}
    [] p = "q-" -> (IF NoSelf /\ Has_("q+") THEN {C("q+")} ELSE {})
                   \union (IF Has_("q+") /\ Has_("diag") THEN {Drop0(MinusF(C("q+"), [u \in DOMAIN C("diag") |-> 1]))} ELSE {})
                   \union (IF Has_("diag") THEN {Drop0(MinusF(RowsOf(Recip_(E)), [u \in DOMAIN C("diag") |-> 1]))} ELSE {})
                   \union (IF Has_("off") THEN {RowsOf({q \in DOMAIN C("off") : <<q[2], q[1]>> \in E})} ELSE {})
                   \union (IF Has_("L-") /\ Has_("U-") THEN
                      {AddF(RowsOf({q \in DOMAIN C("L-") : <<q[2], q[1]>> \in E}), RowsOf({q \in DOMAIN C("U-") : <<q[2], q[1]>> \in E}))} ELSE {})
    [] p = "tr+" -> (IF NoSelf /\ Has_("tr-") THEN {C("tr-")} ELSE {}) \union (IF Has_("q+") THEN {Sum_(C("q+"))} ELSE {}) \union {Cardinality(Recip_(E))}
    [] p = "tr-" -> (IF NoSelf /\ Has_("tr+") THEN {C("tr+")} ELSE {}) \union (IF Has_("q-") THEN {Sum_(C("q-"))} ELSE {})
    [] p = "min+" -> {MinS(WtOf(E))} \union (IF NoSelf /\ Has_("min-") THEN {C("min-")} ELSE {})
    [] p = "min-" -> {MinS(WtOf(O_))} \union (IF NoSelf /\ Has_("min+") THEN {C("min+")} ELSE {})
    [] p = "minD" -> (IF NoSelf THEN {{}} ELSE {}) \union (IF Has_("diag") THEN {MinS(C("diag"))} ELSE {})
    [] p = "negD" -> (IF NoSelf THEN {FALSE} ELSE {})
                   \union (IF Has_("neg+") /\ C("neg+") /\ Has_("neg-") /\ ~C("neg-") THEN {TRUE} ELSE {})
                   \union (IF Has_("neg+") /\ C("neg+") /\ Has_("min-") /\ C("min-") # {} /\ ~NegS(C("min-")) THEN {TRUE} ELSE {})
                   \union (IF Has_("min+") /\ Has_("min-") /\ C("min+") # {} /\ C("min-") # {}
                              /\ (CHOOSE x \in C("min+") : TRUE) < Min2(CHOOSE x \in C("min-") : TRUE, 0) THEN {TRUE} ELSE {})
                   \union (IF Has_("minD") THEN {NegS(C("minD"))} ELSE {})
    [] p = "neg+" -> (IF (Has_("neg-") /\ C("neg-")) \/ (Has_("min+") /\ NegS(C("min+"))) \/ (Has_("min-") /\ NegS(C("min-")))
                         \/ (Has_("minD") /\ NegS(C("minD"))) \/ (Has_("negD") /\ C("negD")) THEN {TRUE} ELSE {})
                   \union (IF Has_("neg-") /\ ~C("neg-") /\ Has_("minD") THEN {NegS(C("minD"))} ELSE {})
                   \union (IF Has_("min+") THEN {NegS(C("min+"))} ELSE {})
    [] p = "neg-" -> (IF Has_("neg+") /\ C("neg+") /\ (NoSelf \/ (Has_("negD") /\ ~C("negD"))) THEN {TRUE} ELSE {})
                   \union (IF Has_("min-") THEN {NegS(C("min-"))} ELSE {})
    [] p = "self" -> (IF Has_("diag") THEN {DOMAIN C("diag") # {}} ELSE {})
                   \union (IF Has_("off") THEN {nE > NV_("off")} ELSE {})
                   \union (IF Has_("U+") /\ Has_("U-") THEN {NV_("U-") < NV_("U+")} ELSE {})
                   \union (IF Has_("L+") /\ Has_("L-") THEN {NV_("L-") < NV_("L+")} ELSE {})
                   \union (IF Has_("L+") /\ Has_("U+") THEN {NV_("L+") + NV_("U+") > nE} ELSE {})
                   \union (IF Has_("L-") /\ Has_("U-") THEN {NV_("L-") + NV_("U-") < nE} ELSE {})
                   \union (IF ~DIR /\ Has_("U+") THEN {2 * NV_("U+") > nE} ELSE {})
                   \union (IF ~DIR /\ Has_("U-") THEN {2 * NV_("U-") < nE} ELSE {})
                   \union (IF Has_("negD") /\ C("negD") THEN {TRUE} ELSE {})
                   \union (IF Has_("tr+") /\ Has_("tr-") THEN {C("tr+") > C("tr-")} ELSE {})
                   \union UNION {IF Has_(x[1]) /\ Has_(x[2]) /\ x[1] \in {"r+", "c+", "t+", "q+"} THEN {C(x[1]) # C(x[2])} ELSE {} : x \in Pairs_}
                   \union UNION {IF Has_(x) THEN {Sum_(C(x)) < nE} ELSE {} : x \in {"r-", "c-"} }
                   \union (IF Has_("t-") THEN {Sum_(C("t-")) < 2 * nE} ELSE {})
                   \* a scalar that differs with and without self-edges betrays one
                   \union (IF Has_("min+") /\ Has_("min-") /\ C("min+") # C("min-") THEN {TRUE} ELSE {})
\* once it is known that there are no self-edges, the two variants are one object
Share(c) ==
  IF ~("self" \in DOMAIN c /\ ~c["self"]) THEN {c}
  ELSE {c} \union {Merge(c, [z \in {x[1]} |-> c[x[2]]]) : x \in {y \in Pairs_ : y[2] \in DOMAIN c /\ y[1] \in Names}}
           \union {Merge(c, [z \in {x[2]} |-> c[x[1]]]) : x \in {y \in Pairs_ : y[1] \in DOMAIN c /\ y[2] \in Names}}
Init == IsSmall(g) /\ cache = <<>>
Read(p) == p \notin DOMAIN cache /\ \E x \in Offers(p) : cache' \in Share(Merge(cache, [z \in {p} |-> x])) /\ UNCHANGED g
Next == \E p \in Names : Read(p)
Spec == Init /\ [][Next]_vars
NeverWrong == \A p \in DOMAIN cache : cache[p] = Decl(p)
\* every property can be read from every state
Available == \A p \in Names \ DOMAIN cache : Offers(p) # {} \/ p \in {"self", "q-", "t+", "t-", "tr-", "minD", "negD", "neg+", "neg-"}
=============================================================================
