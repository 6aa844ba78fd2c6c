------------------------------- MODULE SetModel -------------------------------
(***************************************************************************)
(* L2: a result set as the library stores it: a sparse vector over the     *)
(* storage positions of the nodes of its graph, with the map from keys to  *)
(* positions.  Binary operations take a short cut on the positions when    *)
(* both sides have the same map, and go element by element otherwise; the  *)
(* result is a library set when all its elements are nodes.  Each          *)
(* operation is the code's; the claim is that outcome and effect are those *)
(* that `Containers` allows for the abstract sets.                         *)
(*                                                                         *)
(* Container 1 is the subject; operand 2 is a set over the same storage    *)
(* order, over another order, or a plain Python set (possibly with an      *)
(* element that is no node).  With EMIT every transition is printed, to be *)
(* replayed on the real sets.                                              *)
(***************************************************************************)
EXTENDS Containers, Json
CONSTANTS EMIT
VARIABLES one, two, st, init, bad, step
vars == <<one, two, st, init, bad, step>>
Hidden == <<one, two, st, bad, step>>

KEYS == 1..3
Order == <<<<1, 2, 3>>, <<3, 1, 2>>>>                     \* storage orders of the two graphs
PosOf(g, k) == CHOOSE p \in 1..3 : Order[g][p] = k
\* a stored set: [k |-> "c", g, m : the occupied positions]; a Python set: [k |-> "py", v]
AbsSet(x) == IF x.k = "py" THEN x.v ELSE {Order[x.g][p] : p \in x.m}
Stored(g, T) == [k |-> "c", g |-> g, m |-> {PosOf(g, k) : k \in T}]
SortedSeq(T) == SelectSeq(<<0, 1, 2, 3>>, LAMBDA k : k \in T)
ObsSet(T) == [k |-> "set", v |-> SortedSeq(T)]
NoneO == [k |-> "none"]
BoolO(b) == [k |-> "bool", v |-> b]
KErr == [k |-> "exc", c |-> <<"KeyError">>]

SameMap(x, y) == x.k = "c" /\ y.k = "c" /\ x.g = y.g
HasKey(x, k) == IF x.k = "py" THEN k \in x.v ELSE k \in KEYS /\ PosOf(x.g, k) \in x.m
LenOf(x) == IF x.k = "py" THEN Cardinality(x.v) ELSE Cardinality(x.m)
SubOf(x, y) == LenOf(x) <= LenOf(y) /\ \A k \in AbsSet(x) : HasKey(y, k)
EqCode(x, y) ==
  IF y.k = "c" /\ Cardinality(x.m) = Cardinality(y.m) /\ Cardinality(x.m \intersect y.m) = Cardinality(x.m) /\ SameMap(x, y)
  THEN TRUE ELSE LenOf(x) = LenOf(y) /\ SubOf(x, y)
DisjCode(x, y) == IF SameMap(x, y) THEN x.m \intersect y.m = {} ELSE \A k \in AbsSet(y) : ~HasKey(x, k)
RelCode(f, x, y) ==
  CASE f = "eq" -> EqCode(x, y) [] f = "ne" -> ~EqCode(x, y)
    [] f = "le" -> SubOf(x, y) [] f = "lt" -> LenOf(x) < LenOf(y) /\ SubOf(x, y)
    [] f = "ge" -> SubOf(y, x) [] f = "gt" -> LenOf(y) < LenOf(x) /\ SubOf(y, x)
    [] f = "disjoint" -> DisjCode(x, y)
BinCode(f, x, y) ==
  CASE f = "and" -> {k \in AbsSet(y) : HasKey(x, k)}
    [] f = "or" -> AbsSet(x) \union AbsSet(y)
    [] f = "sub" -> {k \in AbsSet(x) : ~HasKey(y, k)}
    [] f = "rsub" -> {k \in AbsSet(y) : ~HasKey(x, k)}
    [] f = "xor" -> {k \in AbsSet(x) : ~HasKey(y, k)} \union {k \in AbsSet(y) : ~HasKey(x, k)}
\* in place: element by element on the stored vector
Add(x, k) == [x EXCEPT !.m = @ \union {PosOf(x.g, k)}]
Drop(x, k) == IF k \in KEYS THEN [x EXCEPT !.m = @ \ {PosOf(x.g, k)}] ELSE x
RECURSIVE Each(_, _, _)
Each(f, x, T) ==
  IF T = {} THEN x ELSE
  LET k == CHOOSE k \in T : TRUE
      y == CASE f = "or" -> Add(x, k) [] f = "sub" -> Drop(x, k)
             [] f = "xor" -> IF HasKey(x, k) THEN Drop(x, k) ELSE Add(x, k)
  IN Each(f, y, T \ {k})
IBin(f, x, y) == IF f = "and" THEN Each("sub", x, {k \in AbsSet(x) : ~HasKey(y, k)}) ELSE Each(f, x, AbsSet(y))

Operand2(e) == IF e.y = 1 THEN one ELSE two
Do(e) ==
  CASE e.op = "s_in" -> [t |-> one, o |-> BoolO(HasKey(one, e.u))]
    [] e.op = "s_len" -> [t |-> one, o |-> [k |-> "int", v |-> LenOf(one)]]
    [] e.op = "s_rel" -> [t |-> one, o |-> BoolO(RelCode(e.f, one, Operand2(e)))]
    [] e.op = "s_bin" -> [t |-> one, o |-> ObsSet(BinCode(e.f, one, Operand2(e)))]
    [] e.op = "s_ibin" -> LET r == IBin(e.f, one, Operand2(e)) IN [t |-> r, o |-> ObsSet(AbsSet(r))]
    [] e.op = "s_union" -> [t |-> one, o |-> ObsSet(AbsSet(one) \union UNION {AbsSet(IF i = 1 THEN one ELSE two) : i \in Rng(e.ys)})]
    [] e.op = "s_add" -> IF e.u \in KEYS THEN [t |-> Add(one, e.u), o |-> NoneO] ELSE [t |-> one, o |-> KErr]
    [] e.op = "s_discard" -> [t |-> Drop(one, e.u), o |-> NoneO]
    [] e.op = "s_remove" -> IF HasKey(one, e.u) THEN [t |-> Drop(one, e.u), o |-> NoneO] ELSE [t |-> one, o |-> KErr]
    [] e.op = "s_pop" -> IF one.m = {} THEN [t |-> one, o |-> KErr]
                         ELSE LET p == Min(one.m) IN [t |-> [one EXCEPT !.m = @ \ {p}], o |-> [k |-> "val", v |-> Order[one.g][p]]]
    [] e.op = "s_clear" -> [t |-> [one EXCEPT !.m = {}], o |-> NoneO]

Rels == {"eq", "ne", "le", "lt", "ge", "gt", "disjoint"}
Events ==
  {[op |-> o, u |-> u] : o \in {"s_in", "s_add", "s_discard", "s_remove"}, u \in KEYS \union {0}}
  \union {[op |-> o] : o \in {"s_len", "s_pop", "s_clear"}}
  \union {[op |-> "s_rel", f |-> f, y |-> y] : f \in Rels, y \in {1, 2}}
  \union {[op |-> "s_bin", f |-> f, y |-> y] : f \in {"and", "or", "sub", "rsub", "xor"}, y \in {1, 2}}
  \union {[op |-> "s_ibin", f |-> f, y |-> y] : f \in {"and", "sub"}, y \in {1, 2}}
  \union {[op |-> "s_ibin", f |-> f, y |-> y] : f \in {"or", "xor"}, y \in (IF 0 \in AbsSet(two) THEN {1} ELSE {1, 2})}
  \union {[op |-> "s_union", ys |-> q] : q \in {<<>>, <<2>>, <<1, 2>>, <<2, 2>>}}

\* the event as the trace clauses read it
ArgOf(y) == IF y = 1 THEN [k |-> "c", c |-> 1] ELSE IF two.k = "c" THEN [k |-> "c", c |-> 2]
            ELSE [k |-> "py", v |-> SortedSeq(two.v)]
Traced(e, o) ==
  LET b == [c |-> 1, o |-> o] @@ e IN
  IF "y" \in DOMAIN e THEN [x |-> ArgOf(e.y)] @@ b
  ELSE IF "ys" \in DOMAIN e THEN [xs |-> [i \in 1..Len(e.ys) |-> ArgOf(e.ys[i])]] @@ b ELSE b

Shown(x) == IF x.k = "c" THEN [k |-> "c", g |-> x.g, v |-> SortedSeq(AbsSet(x)), dom |-> <<1, 2, 3>>]
            ELSE [k |-> "py", g |-> 1, v |-> SortedSeq(x.v), dom |-> <<1, 2, 3>>]
Init ==
  /\ \E T \in SUBSET KEYS : one = Stored(1, T)
  /\ two \in {Stored(g, T) : g \in {1, 2}, T \in SUBSET KEYS} \union {[k |-> "py", v |-> T] : T \in SUBSET (KEYS \union {0})}
  /\ st = <<NewC("set", AbsSet(one), KEYS, FALSE), NewC("set", AbsSet(two), KEYS, FALSE)>>
  /\ init = <<Shown(one), Shown(two)>> /\ bad = "" /\ step = 0
Next ==
  /\ step = 0 /\ step' = 1
  /\ \E e \in Events : LET r == Do(e)  t == Traced(e, r.o) IN
       /\ one' = r.t /\ UNCHANGED <<two, init>>
       /\ bad' = ContVerdict(st, t)
       /\ st' = ContEffect(st, t)
       /\ EMIT => PrintT(ToJson([init |-> init, ev |-> <<e>>]))
Spec == Init /\ [][Next]_vars

Accepted == bad = ""
Refines == st[1].S = AbsSet(one) /\ st[2].S = AbsSet(two)
=============================================================================
