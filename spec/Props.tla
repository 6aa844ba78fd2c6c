--------------------------------- MODULE Props ---------------------------------
(***************************************************************************)
(* Named derived properties of a graph object.  A read is the event        *)
(*   [op |-> "prop", g, pk |-> kind, pop |-> reduction, ax |-> "row"/"col",*)
(*    off |-> BOOLEAN (self-edges ignored), m |-> <<>> or <<labels>> mask] *)
(* Its value is a function of the graph alone: no history enters.          *)
(***************************************************************************)
EXTENDS Outcome

Pos(g) == TLCEval([u \in V(g) |-> CHOOSE i \in 1..NV(g) : g.nd[i] = u])

\* entries of the adjacency matrix, with or without the diagonal
Ent(g, off)  == {p \in Edges(g) : ~off \/ p[1] # p[2]}
PWt(g, p)    == g.w[p[1]][p[2]]

Extremum(op, S) == IF op = "min" THEN MinOf(S) ELSE MaxOf(S)
ReduceE(g, op, P) ==       \* reduction of the non-empty set of entries P
  IF op = "count" THEN Cardinality(P)
  ELSE IF op = "plus" THEN SumOver(P, LAMBDA p : PWt(g, p))
  ELSE Extremum(op, {PWt(g, p) : p \in P})
Line(g, ax, off, u) == IF ax = "row" THEN {<<u, v>> : v \in {x \in OutN(g, u) : ~off \/ x # u}}
                       ELSE {<<v, u>> : v \in {x \in InN(g, u) : ~off \/ x # u}}

InMask(e, u) == Len(e.m) = 0 \/ u \in Rng(e.m[1])
VecIs(g, e, o, D, F(_)) == IsMap(o, {u \in D : InMask(e, u)}, F)
ScalarIs(o, none, x) == IF none THEN o.k = "none" ELSE IsInt(o, x)

MatIs(o, P, F(_)) ==
  /\ o.k = "mm" /\ Cardinality(Pairs(o)) = Len(o.v) /\ Pairs(o) = P
  /\ \A i \in 1..Len(o.v) : o.v[i][3] = F(<<o.v[i][1], o.v[i][2]>>)

Recip(g, off, u) == {v \in OutN(g, u) \cap InN(g, u) : ~off \/ u # v}

PropVerdict(s, e) ==
  LET g == s.g  o == e.o IN
  CASE e.pk = "mat" ->
         LET ps == Pos(g)
             P == CASE e.pop = "A"   -> Ent(g, FALSE)
                    [] e.pop = "AT"  -> {<<p[2], p[1]>> : p \in Ent(g, FALSE)}
                    [] e.pop = "off" -> Ent(g, TRUE)
                    [] e.pop = "U"   -> {p \in Ent(g, e.off) : ps[p[1]] <= ps[p[2]]}
                    [] e.pop = "L"   -> {p \in Ent(g, e.off) : ps[p[1]] >= ps[p[2]]}
         IN If(MatIs(o, P, LAMBDA p : IF e.pop = "AT" THEN g.w[p[2]][p[1]] ELSE PWt(g, p)), "prop.matrix")
    [] e.pk = "diag" -> If(VecIs(g, e, o, Loops(g), LAMBDA u : g.w[u][u]), "prop.diag")
    [] e.pk = "red" ->
         If(VecIs(g, e, o, {u \in V(g) : Line(g, e.ax, e.off, u) # {}},
                  LAMBDA u : ReduceE(g, e.pop, Line(g, e.ax, e.off, u))), "prop.reduction")
    [] e.pk \in {"el", "dg"} /\ NV(g) = 0 -> ""   \* GraphBLAS aggregates over a 0 x 0 matrix are not promised
    [] e.pk = "el" -> LET P == Ent(g, e.off) IN
         If(ScalarIs(o, P = {} /\ o.k = "none", IF P = {} THEN 0 ELSE ReduceE(g, e.pop, P)), "prop.element")
    [] e.pk = "dg" -> LET P == {<<u, u>> : u \in Loops(g)} IN
         If(ScalarIs(o, P = {} /\ o.k = "none", IF P = {} THEN 0 ELSE ReduceE(g, e.pop, P)), "prop.diagonal")
    [] e.pk = "recip" ->
         If(VecIs(g, e, o, {u \in V(g) : Recip(g, e.off, u) # {}},
                  LAMBDA u : Cardinality(Recip(g, e.off, u))), "prop.recip")
    [] e.pk = "total" ->
         LET T(u) == Cardinality(Line(g, "row", e.off, u)) + Cardinality(Line(g, "col", e.off, u)) IN
         If(VecIs(g, e, o, {u \in V(g) : T(u) > 0}, T), "prop.total")
    [] e.pk = "trecip" ->
         If(IsInt(o, SumOver(V(g), LAMBDA u : Cardinality(Recip(g, e.off, u)))), "prop.total-recip")
    [] e.pk = "iso" ->     \* storage-level iso-ness implies equal weights; the converse is not promised
         If(o.k = "bool" /\ (o.v => Cardinality({PWt(g, p) : p \in Edges(g)}) <= 1), "prop.is_iso")
    [] e.pk = "isoval" ->
         If(o.k = "none" \/ (Edges(g) = {} /\ o.k = "int")
            \/ (Cardinality({PWt(g, p) : p \in Edges(g)}) = 1 /\ IsInt(o, PWt(g, CHOOSE p \in Edges(g) : TRUE))),
            "prop.iso_value")
    [] e.pk = "negdiag" -> If(IsBool(o, \E u \in Loops(g) : g.w[u][u] < 0), "prop.negative-diagonal")
    [] e.pk = "neg" -> If(IsBool(o, \E p \in Ent(g, e.off) : PWt(g, p) < 0), "prop.negative-edges")
    [] e.pk = "loops" -> If(IsBool(o, HasLoops(g)), "prop.self-edges")
    [] OTHER -> "harness.property"

RECURSIVE PropsFold(_, _, _)
\* a batch read: e.ps is a sequence of property descriptions, o.v the sequence of outcomes
PropsFold(s, e, i) ==
  IF i > Len(e.ps) THEN ""
  ELSE LET c == PropVerdict(s, [e.ps[i] EXCEPT !.o = e.o.v[i]]) IN
       IF c # "" THEN c ELSE PropsFold(s, e, i + 1)
PropsVerdict(s, e) ==
  IF e.op = "prop" THEN PropVerdict(s, e)
  ELSE IF ~(e.o.k = "seq" /\ Len(e.o.v) = Len(e.ps)) THEN "prop.batch"
  ELSE PropsFold(s, e, 1)
PropsOps == {"prop", "props"}
=============================================================================
