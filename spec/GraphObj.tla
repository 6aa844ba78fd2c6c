------------------------------ MODULE GraphObj ------------------------------
(***************************************************************************)
(* Graph objects themselves: construction, node protocol, kind, name and   *)
(* attribute dictionary, as a small state machine.  An object in the store *)
(* is a store entry that additionally has                                  *)
(*   at   : set of <<key, value>>, value a sequence of numbers; key 0 is   *)
(*          the graph's name (a one-element sequence)                      *)
(*   multi: BOOLEAN                                                        *)
(*   atk  : BOOLEAN, whether `at` is specified for this object             *)
(* Attributes of different objects never share state: each action below    *)
(* changes one object only.                                                *)
(***************************************************************************)
EXTENDS Operators

AKeys(A) == {p[1] : p \in A}
AGet(A, k) == (CHOOSE p \in A : p[1] = k)[2]
APut(A, k, x) == {p \in A : p[1] # k} \union {<<k, x>>}
ObjOps == {"o_new", "o_view", "o_in", "o_name", "o_set", "o_push", "o_del", "o_rev", "o_und", "o_conv"}

GraphObjVerdict(st, e) ==
  LET o == e.o  s == st[e.g]  g == st[e.g].g IN
  CASE e.op = "o_new" ->
         IF e.how = "notmatrix" THEN If(Raises(o, {"TypeError"}), "new.type")
         ELSE IF e.how = "rect" THEN If(Raises(o, {"ValueError"}), "new.square")
         ELSE IF o.k # "graph" THEN "new.kind"
         ELSE IF ~SameStruct(o.g, e.want) THEN "new.structure"
         ELSE If(o.g.w = e.want.w, "new.weights")
    [] e.op = "o_conv" ->         \* converted from NetworkX, keeping the graph attributes
         IF o.k # "graph" THEN "conv.kind" ELSE If(SameStruct(o.g, e.want) /\ o.g.w = e.want.w, "conv.graph")
    [] e.op = "o_view" ->
         IF o.k # "obj" THEN "view.kind"
         ELSE IF o.nd # g.nd THEN "view.nodes"
         ELSE IF o.len # <<NV(g), NV(g), NV(g), NV(g)>> THEN "view.len"
         ELSE IF o.dir # g.dir \/ o.multi # s.multi THEN "view.kind"
         ELSE IF o.dcls # "DiGraph" \/ o.ucls # "Graph" THEN "view.class"
         ELSE IF ~o.same THEN "view.matrix"
         ELSE IF ~s.atk THEN ""
         ELSE IF Rng(o.at) # s.at \/ Len(o.at) # Cardinality(s.at) THEN "view.attrs"
         ELSE If(o.name = (IF 0 \in AKeys(s.at) THEN AGet(s.at, 0) ELSE <<>>), "view.name")
    [] e.op = "o_in" -> If(IsBool(o, e.u \in V(g)), "in")       \* an unhashable value is no node
    [] e.op \in {"o_name", "o_set", "o_push"} -> If(o.k = "none", "attr.set")
    [] e.op = "o_del" -> IF e.k \in AKeys(s.at) THEN If(o.k = "none", "attr.del") ELSE If(Raises(o, {"KeyError"}), "attr.del.missing")
    [] e.op = "o_rev" -> GraphIs(o, g.nd, TRUE, {<<p[2], p[1]>> : p \in Edges(g)}, LAMBDA u, v : g.w[v][u], TRUE, "rev")
    [] e.op = "o_und" ->
         IF e.view THEN If(Raises(o, {"NotImplementedError"}), "und.view")
         ELSE OperatorsVerdict(st, [e EXCEPT !.op = "to_undirected"])

\* the one object an action changes
ObjAttrs(s, e) ==
  CASE e.op = "o_name" -> APut(s.at, 0, <<e.x>>)
    [] e.op = "o_set" -> APut(s.at, e.k, e.x)
    [] e.op = "o_push" -> IF e.k \in AKeys(s.at) THEN APut(s.at, e.k, Append(AGet(s.at, e.k), e.x)) ELSE s.at
    [] e.op = "o_del" -> {p \in s.at : p[1] # e.k}
    [] OTHER -> s.at
ObjNew(st, e) ==      \* what the created object is, beyond its graph
  CASE e.op \in {"o_new", "o_conv"} -> [at |-> {<<e.at[i][1], e.at[i][2]>> : i \in 1..Len(e.at)}, multi |-> e.multi, atk |-> TRUE]
    [] e.op = "o_rev" -> [at |-> st[e.g].at, multi |-> st[e.g].multi, atk |-> st[e.g].atk]
    [] e.op = "o_und" -> [at |-> {}, multi |-> FALSE, atk |-> FALSE]
=============================================================================
