------------------------------- MODULE Labels -------------------------------
(***************************************************************************)
(* Translation between node labels and storage positions (C24): the        *)
(* helpers every algorithm goes through.  The position of a label is its   *)
(* index in g.nd; that is the only place where positions exist.            *)
(***************************************************************************)
EXTENDS Outcome, SequencesExt

Pos(g, u) == (CHOOSE i \in 1..Len(g.nd) : g.nd[i] = u) - 1
Lab(g, i) == g.nd[i + 1]
Known(g, S) == \A i \in 1..Len(S) : S[i] \in V(g)
IsVec(o, size, S) == o.k = "vec" /\ o.size = size /\ Rng(o.v) = S /\ Len(o.v) = Cardinality(S)
IsDict(o, S) == o.k = "items" /\ Rng(o.v) = S /\ Len(o.v) = Cardinality(S)
Firsts(L) == [i \in 1..Len(L) |-> L[i][1]]
Size(g, e) == IF e.size = -1 THEN NV(g) ELSE e.size
Foreign == {"KeyError"}

\* entries of a dictionary of dictionaries
LbRowKey(g, e, i) == IF e.ri THEN i ELSE Lab(g, i)
LbColKey(g, e, j) == IF e.ci THEN j ELSE Lab(g, j)
LbVal(g, e, x) == IF e.vk THEN Lab(g, x) ELSE x

LabelsVerdict(nn, e) ==
  LET g == nn.g  o == e.o  f == e.f  c == "label." \o e.f IN
  CASE f = "ids" -> IF Known(g, e.S) THEN If(o.k = "ilist" /\ o.v = [i \in 1..Len(e.S) |-> Pos(g, e.S[i])], c)
                    ELSE If(Raises(o, Foreign), c \o ".foreign")
    [] f = "keys" -> If(o.k = "list" /\ o.v = [i \in 1..Len(e.I) |-> Lab(g, e.I[i])], c)
    [] f = "none" -> If(o.k = "nones", c)
    [] f = "d2v" -> IF Known(g, Firsts(e.D)) THEN If(IsVec(o, Size(g, e), {<<Pos(g, e.D[i][1]), e.D[i][2]>> : i \in 1..Len(e.D)}), c)
                    ELSE If(Raises(o, Foreign), c \o ".foreign")
    [] f \in {"l2v", "mask"} ->
          IF Known(g, e.S) THEN If(IsVec(o, Size(g, e), {<<Pos(g, u), e.x>> : u \in Rng(e.S)}), c)
          ELSE If(Raises(o, Foreign), c \o ".foreign")
    [] f = "s2v" -> IF e.ign \/ Known(g, e.S)
                    THEN If(IsVec(o, Size(g, e), {<<Pos(g, u), 1000000>> : u \in Rng(e.S) \intersect V(g)}), c)
                    ELSE If(Raises(o, Foreign), c \o ".foreign")
    [] f \in {"v2d", "v2nm"} ->
          LET has == {e.v[i][1] : i \in 1..Len(e.v)}
              M == IF e.mask = <<>> THEN {Pos(g, u) : u \in V(g)} ELSE Rng(e.mask[1])
          IN If(IsDict(o, {<<Lab(g, e.v[i][1]), e.v[i][2]>> : i \in 1..Len(e.v)}
                       \union (IF e.fill = <<>> THEN {} ELSE {<<Lab(g, i), e.fill[1]>> : i \in M \ has})), c)
    [] f = "v2l" -> LET P == {e.v[i][1] : i \in 1..Len(e.v)}
                        S == SetToSortSeq(P, LAMBDA x, y : x < y)
                        At(p) == e.v[CHOOSE i \in 1..Len(e.v) : e.v[i][1] = p][2]
                    IN If(o.k = "list" /\ o.v = [i \in 1..Len(S) |-> Lab(g, IF e.vk THEN At(S[i]) ELSE S[i])], c)
    [] f \in {"v2s", "v2ns"} -> If(IsSet(o, {Lab(g, e.v[i][1]) : i \in 1..Len(e.v)}), c)
    [] f = "m2d" -> If(o.k = "items" /\ NoDup(o.v) /\ Len(o.v) = Len(e.M) /\
                       Rng(o.v) = {<<LbRowKey(g, e, e.M[i][1]), LbColKey(g, e, e.M[i][2]), LbVal(g, e, e.M[i][3])>> : i \in 1..Len(e.M)}, c)
    [] f = "renum" -> If(IsDict(o, {<<Lab(g, e.I[i]), i - 1>> : i \in 1..Len(e.I)}), c)
    [] f = "i2k" -> If(IsDict(o, {<<i, Lab(g, i)>> : i \in 0..NV(g)-1}), c)

LabelsOps == {"lb"}
=============================================================================
