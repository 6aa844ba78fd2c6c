------------------------------- MODULE Outcome -------------------------------
(***************************************************************************)
(* Shape of a logged outcome.  Every API call is logged as one event       *)
(*   e = [op |-> name, g |-> object id, <args>, o |-> outcome]             *)
(* and an outcome is one of                                                *)
(*   [k|->"exc",  c|-> <<class names, most specific first>>]               *)
(*   [k|->"set"|"list", v|-> <<labels>>]   (0 = not a known label)         *)
(*   [k|->"map",  v|-> <<<<label, value>>, ...>>]                          *)
(*   [k|->"mm",   r|-> <<row labels>>, v|-> <<<<u, v, value>>, ...>>]      *)
(*   [k|->"lol",  v|-> <<<<labels>>, ...>>]                                *)
(*   [k|->"num"|"int", v|-> Int]  [k|->"bool", v|-> BOOLEAN]               *)
(*   [k|->"mat",  v|-> <<<<Int>>>>]  [k|->"graph", g|-> graph]             *)
(*   [k|->"none"], [k|->"bad", s|-> description of an ill-typed result]    *)
(***************************************************************************)
EXTENDS GraphDefs

Raises(o, S)  == o.k = "exc" /\ Rng(o.c) \cap S # {}
IsSet(o, S)   == o.k \in {"set", "list"} /\ NoDup(o.v) /\ Rng(o.v) = S
IsBool(o, b)  == o.k = "bool" /\ o.v = b
IsInt(o, x)   == o.k \in {"int", "num"} /\ o.v = x
IsNumV(o)     == o.k = "num" /\ IsNum(o.v)
IsRat(o, p, q, t) == o.k = "num" /\ RatEq(o.v, p, q, t)
Keys(o)       == {o.v[i][1] : i \in 1..Len(o.v)}
MapOk(o)      == o.k = "map" /\ Cardinality(Keys(o)) = Len(o.v)
IsMap(o, D, F(_)) == MapOk(o) /\ Keys(o) = D
                     /\ \A i \in 1..Len(o.v) : o.v[i][2] = F(o.v[i][1])
\* map whose values satisfy a relation
IsMapR(o, D, R(_, _)) == MapOk(o) /\ Keys(o) = D
                     /\ \A i \in 1..Len(o.v) : R(o.v[i][1], o.v[i][2])
Pairs(o)      == {<<o.v[i][1], o.v[i][2]>> : i \in 1..Len(o.v)}
IsMM(o, rows, D, F(_, _)) ==
  /\ o.k = "mm" /\ NoDup(o.r) /\ Rng(o.r) = rows
  /\ Cardinality(Pairs(o)) = Len(o.v) /\ Pairs(o) = D
  /\ \A i \in 1..Len(o.v) : o.v[i][3] = F(o.v[i][1], o.v[i][2])

\* verdict combinators: "" is success, otherwise the name of a failed clause
If(b, name)   == IF b THEN "" ELSE name
RECURSIVE FirstBad(_)
FirstBad(s)   == IF s = <<>> THEN "" ELSE IF Head(s) # "" THEN Head(s) ELSE FirstBad(Tail(s))

\* a single unknown node where a node or an iterable of nodes is expected (the label may itself be iterable)
NoNodeOk(o) == (o.k = "exc" /\ Rng(o.c) \cap {"NetworkXError"} # {}) \/ (o.k \in {"map", "cnt"} /\ Len(o.v) = 0)

\* exception families
ENotFound  == {"NodeNotFound"}
ENotImpl   == {"NetworkXNotImplemented"}
ENX        == {"NetworkXError"}
EPointless == {"NetworkXPointlessConcept"}
=============================================================================
