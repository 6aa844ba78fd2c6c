-------------------------------- MODULE Agree --------------------------------
(***************************************************************************)
(* Two ways of asking must give one answer (C22, C02).  An event "agree"   *)
(* holds in o.rs the outcomes of one request made in several ways; the     *)
(* first is the reference (NetworkX's own code, or a freshly built copy).  *)
(* Same is equality of outcomes as mathematical objects: sets and maps     *)
(* have no order, fixed-point numbers may differ by rounding (e.tol).      *)
(***************************************************************************)
EXTENDS Outcome

NearT(x, y, t) == x = y \/ (IsNum(x) /\ IsNum(y) /\ Abs(x - y) <= t)
SameMat(A, B, t) == Len(A) = Len(B)
                    /\ \A i \in 1..Len(A) : /\ Len(A[i]) = Len(B[i])
                                            /\ \A j \in 1..Len(A[i]) : NearT(A[i][j], B[i][j], t)
\* sequences of tuples whose last component is a number; the rest is the key
Key(x) == SubSeq(x, 1, Len(x) - 1)
SameTable(A, B, t) ==
  /\ Len(A) = Len(B)
  /\ \A i \in 1..Len(A) : \E j \in 1..Len(B) : Key(A[i]) = Key(B[j]) /\ NearT(A[i][Len(A[i])], B[j][Len(B[j])], t)
  /\ {Key(A[i]) : i \in 1..Len(A)} = {Key(B[j]) : j \in 1..Len(B)}

\* NetworkX gives an infinite distance where the library gives none
Finite(A) == SelectSeq(A, LAMBDA x : x[3] # PInf)

\* an undirected edge has no first end
Unor(A) == {<<{x[1], x[2]}>> \o SubSeq(x, 3, Len(x)) : x \in Rng(A)}

RECURSIVE Same(_, _, _, _, _)
Same(x, y, t, dir, e) ==
  IF x.k = "exc" THEN y.k = "exc" /\ (e.skipexc \/ x.c = y.c)
  ELSE IF x.k \in {"set", "list"} /\ y.k \in {"set", "list"}
       THEN Len(x.v) = Len(y.v) /\ IF x.k = "list" /\ y.k = "list" THEN x.v = y.v ELSE Rng(x.v) = Rng(y.v)
  ELSE IF x.k \in {"int", "num"} /\ y.k \in {"int", "num"} THEN NearT(x.v, y.v, t)
  ELSE IF x.k # y.k THEN FALSE
  ELSE CASE x.k = "map" -> SameTable(x.v, y.v, t)
         [] x.k = "edges" -> Len(x.v) = Len(y.v) /\ (Rng(x.v) = Rng(y.v) \/ (~dir /\ Unor(x.v) = Unor(y.v)))
         [] x.k = "mm" -> Rng(x.r) = Rng(y.r) /\ Len(x.r) = Len(y.r) /\ SameTable(Finite(x.v), Finite(y.v), t)
         [] x.k = "cnt" -> Rng(x.r) = Rng(y.r) /\ Len(x.r) = Len(y.r) /\ SameTable(x.v, y.v, t)
         [] x.k = "mat" -> SameMat(x.v, y.v, t)
         [] x.k = "graph" -> Rng(x.g.nd) = Rng(y.g.nd) /\ Len(x.g.nd) = Len(y.g.nd) /\ x.g.dir = y.g.dir /\ x.g.a = y.g.a
         [] x.k = "lol" -> Len(x.v) = Len(y.v) /\ \A i \in 1..Len(x.v) : Rng(x.v[i]) = Rng(y.v[i])
         [] x.k = "hits" -> Same(x.h, y.h, t, dir, e) /\ Same(x.a, y.a, t, dir, e)
         [] OTHER -> x = y

Narrower == {"NetworkXNotImplemented", "NotImplementedError"}
AgreeVerdict(nn, e) ==
  LET R == e.o.rs
      Ok(i) == \/ e.skipexc /\ R[1].k = "exc"
               \/ e.narrow /\ Raises(R[i], Narrower)
               \/ Same(R[1], R[i], e.tol, nn.g.dir, e)
  IN FirstBad([i \in 1..Len(R) |-> If(Ok(i), "agree." \o e.f \o "." \o e.modes[i])])

RegistryVerdict(e) == If(e.o.k = "names" /\ e.o.v = <<>>, "registry." \o e.what)

AgreeOps == {"agree", "registry", "hold"}
AgreeOrRegistry(nn, e) == IF e.op = "registry" THEN RegistryVerdict(e) ELSE IF e.op = "hold" THEN If(e.o.k = "none", "hold") ELSE AgreeVerdict(nn, e)
=============================================================================
