------------------------------ MODULE GraphDefs ------------------------------
(***************************************************************************)
(* L1: declarative vocabulary.  An abstract graph is a record              *)
(*   [nd  |-> <<v1,...,vk>>   node labels (1..N) in storage order,         *)
(*    dir |-> BOOLEAN,                                                     *)
(*    a   |-> N x N tuple of 0/1   (a[u][v] = 1 iff edge u->v),            *)
(*    w   |-> N x N tuple of Int   (weight, 0 where there is no edge),     *)
(*    sc  |-> Nat                  real weight = w / sc]                   *)
(* Undirected graphs have symmetric a, w.  Labels, not positions, index    *)
(* everything: the specification cannot even express a dependency on       *)
(* storage order except where `nd` is mentioned.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Inf  == 1000000000            \* "unreachable"
NaNI == 2147483001            \* sentinels of the fixed-point encoding
PInf == 2147483002
NInf == -2147483002
Mil  == 1000000

Rng(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
\* folds rather than CHOOSE x : \A y ..., which TLC evaluates in quadratic time
MinOf(S) == FoldSet(LAMBDA x, m : IF x < m THEN x ELSE m, CHOOSE x \in S : TRUE, S)
MaxOf(S) == FoldSet(LAMBDA x, m : IF x > m THEN x ELSE m, CHOOSE x \in S : TRUE, S)
Min2(x, y) == IF x <= y THEN x ELSE y
Max2(x, y) == IF x >= y THEN x ELSE y
B2I(b) == IF b THEN 1 ELSE 0

SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : f(x) + acc, 0, S)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
NoDup(s) == Cardinality(Rng(s)) = Len(s)
\* a sequence sorted ascending with multiplicity, as a bag: label -> count
BagOf(s) == [x \in Rng(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

V(g)       == Rng(g.nd)
NV(g)      == Len(g.nd)
IsE(g, u, v) == g.a[u][v] = 1
Wt(g, u, v)  == g.w[u][v]
Edges(g)   == {e \in V(g) \X V(g) : g.a[e[1]][e[2]] = 1}
\* each undirected edge once (u <= v by label), each directed edge as is
UEdges(g)  == {e \in Edges(g) : g.dir \/ e[1] <= e[2]}
Loops(g)   == {u \in V(g) : g.a[u][u] = 1}
HasLoops(g) == \E u \in V(g) : g.a[u][u] = 1
OutN(g, u) == {v \in V(g) : g.a[u][v] = 1}
InN(g, u)  == {v \in V(g) : g.a[v][u] = 1}
OutX(g, u) == OutN(g, u) \ {u}          \* ignoring self-loops
InX(g, u)  == InN(g, u) \ {u}
NbrX(g, u) == OutX(g, u) \union InX(g, u)
OutFn(g) == TLCEval([u \in V(g) |-> TLCEval(OutX(g, u))])
InFn(g)  == TLCEval([u \in V(g) |-> TLCEval(InX(g, u))])
AnyFn(g) == TLCEval([u \in V(g) |-> TLCEval(NbrX(g, u))])

(***************************************************************************)
(* Well-formedness of an abstract graph over a universe of N labels        *)
(***************************************************************************)
WellFormed(g) ==
  /\ NoDup(g.nd)
  /\ \A u \in 1..Len(g.a) : \A v \in 1..Len(g.a) :
        /\ g.a[u][v] \in {0, 1}
        /\ g.a[u][v] = 1 => u \in V(g) /\ v \in V(g)
        /\ g.a[u][v] = 0 => g.w[u][v] = 0
        /\ ~g.dir => g.a[u][v] = g.a[v][u] /\ g.w[u][v] = g.w[v][u]

SameGraph(g, h) == g.nd = h.nd /\ g.dir = h.dir /\ g.a = h.a /\ g.w = h.w
SameStruct(g, h) == g.nd = h.nd /\ g.dir = h.dir /\ g.a = h.a

(***************************************************************************)
(* Hop distance.  Ball(out, F, seen, k, acc): breadth-first closure.       *)
(***************************************************************************)
RECURSIVE BfsFrom(_, _, _, _, _)
BfsFrom(out, F, seen, k, acc) ==
  LET F2 == (UNION {out[x] : x \in F}) \ seen
  IN  IF F2 = {} THEN acc
      ELSE BfsFrom(out, TLCEval(F2), TLCEval(seen \union F2), k + 1,
                   TLCEval([v \in DOMAIN acc |-> IF v \in F2 THEN k + 1 ELSE acc[v]]))
HopFrom(out, S) == BfsFrom(out, S, S, 0, TLCEval([v \in DOMAIN out |-> IF v \in S THEN 0 ELSE Inf]))
HopDist(out)    == TLCEval([u \in DOMAIN out |-> HopFrom(out, {u})])
\* rows and columns of the hop distance; s.h = <<>> on graphs too large for the whole table
HRow(s, u) == IF s.h = <<>> THEN HopFrom(OutFn(s.g), {u}) ELSE s.h[u]
HCol(s, u) == IF s.h = <<>> THEN HopFrom(InFn(s.g), {u}) ELSE [v \in V(s.g) |-> s.h[v][u]]
\* purely declarative counterpart, used in the theorem configs
RECURSIVE WalkRel(_, _)
WalkRel(out, k) == IF k = 0 THEN {<<u, u>> : u \in DOMAIN out}
                   ELSE LET R == WalkRel(out, k - 1)
                        IN  {p \in (DOMAIN out) \X (DOMAIN out) :
                               \E m \in DOMAIN out : <<p[1], m>> \in R /\ p[2] \in out[m]}
HopDecl(out, u, v) ==
  LET K == {k \in 0..Cardinality(DOMAIN out) : <<u, v>> \in WalkRel(out, k)}
  IN  IF K = {} THEN Inf ELSE MinOf(K)

Transpose(g) == [g EXCEPT !.a = [u \in DOMAIN g.a |-> [v \in DOMAIN g.a |-> g.a[v][u]]],
                          !.w = [u \in DOMAIN g.w |-> [v \in DOMAIN g.w |-> g.w[v][u]]]]

(***************************************************************************)
(* Numbers.  x is a fixed-point integer: real value = x / Mil.             *)
(* RatEq(x,p,q,t): |x/Mil - p/q| <= t/Mil, q > 0, in 32-bit arithmetic.    *)
(***************************************************************************)
RECURSIVE Digits(_, _, _, _)   \* k further decimal digits of r/q behind x, one at a time
Digits(x, r, q, k) == IF k = 0 THEN x ELSE Digits(10 * x + (r * 10) \div q, (r * 10) % q, q, k - 1)
RatFix(p, q) ==   \* round-down of |p|*Mil/q, by splitting: no product exceeds 32 bits
  LET s == IF p < 0 THEN -1 ELSE 1
      ap == Abs(p)
      i  == ap \div q          r0 == ap % q
      d1 == (r0 * 1000) \div q r1 == (r0 * 1000) % q
      d2 == (r1 * 1000) \div q
  IN  IF q > 2140000 THEN s * (i * Mil + Digits(0, r0, q, 6)) ELSE s * (i * Mil + d1 * 1000 + d2)
IsNum(x) == x < 2147480000 /\ x > -2147480000
Near(x, y, t) == IsNum(x) /\ IsNum(y) /\ Abs(x - y) <= t
RatEq(x, p, q, t) == IsNum(x) /\ Abs(x - RatFix(p, q)) <= t + 1
=============================================================================
