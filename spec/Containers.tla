------------------------------ MODULE Containers ------------------------------
(***************************************************************************)
(* The mappings and sets the library hands out, as mutable abstract        *)
(* dictionaries and sets living in the same store as the graphs.           *)
(*   mapping: S is a set of pairs <<key, value>> (a finite function);      *)
(*            a nested value is itself a set of pairs.                     *)
(*   set:     S is the set of its elements.                                *)
(* dom is the set of keys the container can hold (the nodes of its graph). *)
(* Each operation has a guard on its outcome (ContVerdict) and an effect   *)
(* on exactly one container (ContEffect): nothing else in the store moves. *)
(***************************************************************************)
EXTENDS Outcome

NewC(t, S, dom, nest) == [g |-> [nd |-> <<>>, dir |-> FALSE, a |-> <<>>, w |-> <<>>, sc |-> 1],
                          t |-> t, S |-> S, dom |-> dom, nest |-> nest, orig |-> S]
NormV(x, nest) == IF nest THEN Rng(x) ELSE x
NormP(L, nest) == {<<L[i][1], NormV(L[i][2], nest)>> : i \in 1..Len(L)}
DKeys(S) == {p[1] : p \in S}
At(S, k) == (CHOOSE p \in S : p[1] = k)[2]
Without(S, k) == {p \in S : p[1] # k}
Put(S, k, x) == Without(S, k) \union {<<k, x>>}
PutAll(S, T) == {p \in S : p[1] \notin DKeys(T)} \union T

\* contents of a freshly built container
Initial(e) ==
  LET D == Rng(e.dom)
      F == IF e.fill = <<>> THEN {} ELSE
           IF e.nest THEN {<<u, {<<v, e.fill[1]>> : v \in D}>> : u \in D} ELSE {<<v, e.fill[1]>> : v \in D}
      rows == {e.init[i][1] : i \in 1..Len(e.init)}
      row(u) == {<<e.init[i][2], e.init[i][3]>> : i \in {j \in 1..Len(e.init) : e.init[j][1] = u}}
      fillrow == IF e.fill = <<>> THEN {} ELSE {<<v, e.fill[1]>> : v \in D}
  IN IF e.t = "set" THEN {e.init[i] : i \in 1..Len(e.init)}
     ELSE IF e.nest THEN PutAll(F \union {<<u, {}>> : u \in Rng(e.rows)}, {<<u, PutAll(fillrow, row(u))>> : u \in rows})
     ELSE PutAll(F, {<<e.init[i][1], e.init[i][2]>> : i \in 1..Len(e.init)})

Operand(st, x) == IF x.k = "c" THEN st[x.c].S ELSE Rng(x.v)
SetOp(f, A, B) == CASE f = "and" -> A \intersect B [] f = "or" -> A \union B
                    [] f = "sub" -> A \ B [] f = "rsub" -> B \ A
                    [] f = "xor" -> (A \ B) \union (B \ A)
Rel(f, A, B) == CASE f = "eq" -> A = B [] f = "ne" -> A # B [] f = "le" -> A \subseteq B
                  [] f = "lt" -> A \subseteq B /\ A # B [] f = "ge" -> B \subseteq A
                  [] f = "gt" -> B \subseteq A /\ A # B [] f = "disjoint" -> A \intersect B = {}

IsVal(o, x, nest) == o.k = "val" /\ NormV(o.v, nest) = x
EKey == {"KeyError"}
ItemsAre(o, S, nest) == o.k = "items" /\ Len(o.v) = Cardinality(S) /\ NormP(o.v, nest) = S

ContVerdict(st, e) ==
  LET o == e.o IN
  IF e.op = "cont" THEN
     IF o.k = "exc" THEN "cont.create" ELSE
     IF e.t = "set" THEN If(IsSet(o, Initial(e)), "cont.create")
     ELSE If(ItemsAre(o, Initial(e), e.nest), "cont.create")
  ELSE IF e.op = "capi" THEN
     IF e.t = "set" THEN If(o.k = "set" /\ NoDup(o.v) /\ Rng(o.v) \subseteq Rng(e.dom), "capi.set")
     ELSE If(o.k = "items" /\ NoDup(o.v) /\ Cardinality(DKeys(Rng(o.v))) = Len(o.v) /\ DKeys(Rng(o.v)) \subseteq Rng(e.dom), "capi.map")
  ELSE LET c == st[e.c]  S == c.S  K == DKeys(c.S)  n == c.nest IN
  CASE e.op = "again" -> IF c.t = "set" THEN If(IsSet(o, c.orig), "aliasing.set") ELSE If(ItemsAre(o, c.orig, n), "aliasing.map")
    [] e.op = "c_item" -> IF e.u \in K THEN If(IsVal(o, At(S, e.u), n), "getitem") ELSE If(Raises(o, EKey), "getitem.missing")
    [] e.op = "c_get" -> IF e.u \in K THEN If(IsVal(o, At(S, e.u), n), "get")
                         ELSE IF e.d = <<>> THEN If(o.k = "none", "get.default") ELSE If(o.k = "dflt", "get.default")
    [] e.op = "c_in" -> If(IsBool(o, e.u \in K), "contains")
    [] e.op = "c_len" -> If(IsInt(o, Cardinality(S)), "len")
    [] e.op = "c_bool" -> If(IsBool(o, S # {}), "bool")
    [] e.op = "c_iter" -> If(IsSet(o, K), "iter")
    [] e.op = "c_items" -> If(ItemsAre(o, S, n), "items")
    [] e.op = "c_eqd" -> If(IsBool(o, (NormP(e.d, n) = S) = ~e.neg), "eq-dict")
    [] e.op = "c_eqc" -> If(IsBool(o, (st[e.other].S = S) = ~e.neg), "eq")
    [] e.op = "c_set" -> IF e.u \in c.dom THEN If(o.k = "none", "setitem") ELSE If(o.k = "exc", "setitem.foreign")
    [] e.op = "c_del" -> IF e.u \in K THEN If(o.k = "none", "delitem") ELSE If(Raises(o, EKey), "delitem.missing")
    [] e.op = "c_pop" -> IF e.u \in K THEN If(IsVal(o, At(S, e.u), n), "pop")
                         ELSE IF e.d = <<>> THEN If(Raises(o, EKey), "pop.missing")
                         ELSE If(o.k = "dflt", "pop.default")
    [] e.op = "c_popitem" -> IF S = {} THEN If(Raises(o, EKey), "popitem.empty")
                             ELSE If(o.k = "items" /\ Len(o.v) = 1 /\ NormP(o.v, n) \subseteq S, "popitem")
    [] e.op = "c_setdefault" -> IF e.u \in K THEN If(IsVal(o, At(S, e.u), n), "setdefault")
                                ELSE IF e.u \in c.dom THEN If(IsVal(o, NormV(e.x, n), n), "setdefault.new")
                                ELSE If(o.k = "exc", "setdefault.foreign")
    [] e.op = "c_update" -> If(o.k = "none", "update")
    [] e.op = "c_clear" -> If(o.k = "none", "clear")
    [] e.op = "s_in" -> If(IsBool(o, e.u \in S), "set.contains")
    [] e.op = "s_len" -> If(IsInt(o, Cardinality(S)), "set.len")
    [] e.op = "s_bool" -> If(IsBool(o, S # {}), "set.bool")
    [] e.op = "s_iter" -> If(IsSet(o, S), "set.iter")
    [] e.op = "s_rel" -> If(IsBool(o, Rel(e.f, S, Operand(st, e.x))), "set." \o e.f)
    [] e.op = "s_bin" -> If(IsSet(o, SetOp(e.f, S, Operand(st, e.x))), "set." \o e.f)
    [] e.op = "s_ibin" -> If(IsSet(o, SetOp(e.f, S, Operand(st, e.x))), "set.i" \o e.f)
    [] e.op = "s_union" -> If(IsSet(o, S \union UNION {Operand(st, e.xs[i]) : i \in 1..Len(e.xs)}), "set.union")
    [] e.op = "s_add" -> IF e.u \in c.dom THEN If(o.k = "none", "set.add") ELSE If(o.k = "exc", "set.add.foreign")
    [] e.op = "s_discard" -> If(o.k = "none", "set.discard")
    [] e.op = "s_remove" -> IF e.u \in S THEN If(o.k = "none", "set.remove") ELSE If(Raises(o, EKey), "set.remove.missing")
    [] e.op = "s_pop" -> IF S = {} THEN If(Raises(o, EKey), "set.pop.empty") ELSE If(o.k = "val" /\ o.v \in S, "set.pop")
    [] e.op = "s_clear" -> If(o.k = "none", "set.clear")
    [] e.op = "s_copy" -> If(IsSet(o, S), "set.copy")

\* the contents after the call
After(st, e) ==
  LET c == st[e.c]  S == c.S  n == c.nest  o == e.o IN
  CASE e.op = "c_set" /\ e.u \in c.dom -> Put(S, e.u, NormV(e.x, n))
    [] e.op \in {"c_del", "c_pop"} -> Without(S, e.u)
    [] e.op = "c_popitem" /\ o.k = "items" -> S \ NormP(o.v, n)
    [] e.op = "c_setdefault" /\ e.u \in c.dom -> IF e.u \in DKeys(S) THEN S ELSE Put(S, e.u, NormV(e.x, n))
    [] e.op = "c_update" -> PutAll(S, NormP(e.d, n))
    [] e.op \in {"c_clear", "s_clear"} -> {}
    [] e.op = "s_ibin" -> SetOp(e.f, S, Operand(st, e.x))
    [] e.op = "s_add" /\ e.u \in c.dom -> S \union {e.u}
    [] e.op \in {"s_discard", "s_remove"} -> S \ {e.u}
    [] e.op = "s_pop" /\ o.k = "val" -> S \ {o.v}
    [] OTHER -> S

ContNew(st, e) ==
  IF e.op = "s_copy" THEN NewC("set", st[e.c].S, st[e.c].dom, FALSE)
  ELSE IF e.op = "cont" THEN NewC(e.t, Initial(e), Rng(e.dom), e.nest)
  ELSE NewC(e.t, IF e.o.k = "items" THEN NormP(e.o.v, e.nest) ELSE IF e.o.k = "set" THEN Rng(e.o.v) ELSE {}, Rng(e.dom), e.nest)
ContEffect(st, e) ==
  IF e.op \in {"cont", "capi", "s_copy"} THEN Append(st, TLCEval(ContNew(st, e)))
  ELSE [st EXCEPT ![e.c].S = TLCEval(After(st, e))]

ContOps == {"cont", "capi", "again", "c_item", "c_get", "c_in", "c_len", "c_bool", "c_iter", "c_items", "c_eqd", "c_eqc",
  "c_set", "c_del", "c_pop", "c_popitem", "c_setdefault", "c_update", "c_clear", "s_in", "s_len", "s_bool", "s_iter", "s_rel",
  "s_bin", "s_ibin", "s_union", "s_add", "s_discard", "s_remove", "s_pop", "s_clear", "s_copy"}
=============================================================================
