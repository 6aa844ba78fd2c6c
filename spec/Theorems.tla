------------------------------- MODULE Theorems -------------------------------
(***************************************************************************)
(* The vocabulary of the specification checked against independent,        *)
(* purely declarative definitions, on every small graph.                   *)
(* The behaviour grows a graph one edge at a time, in a fixed order of the *)
(* slots, so that every graph with at most N nodes (and edge weights in    *)
(* WS) is reached exactly once; each theorem is an invariant.              *)
(***************************************************************************)
EXTENDS Outcome, Reach, Weighted, Props, Cluster, Sub, Cuts, Operators, Degree, Predicates, Matrices, Ranking, Convert, Labels, Invalid, SequencesExt

CONSTANTS N, DIR, LOOPS, WS
VARIABLES g, last
vars == <<g, last>>

Zero == [u \in 1..N |-> [v \in 1..N |-> 0]]
Empty(n) == [nd |-> [i \in 1..n |-> i], dir |-> DIR, a |-> Zero, w |-> Zero, sc |-> 1]
SetAt(m, u, v, x) == [m EXCEPT ![u][v] = x]
AddE(h, u, v, x) ==
  IF DIR THEN [h EXCEPT !.a[u][v] = 1, !.w[u][v] = x]
  ELSE [h EXCEPT !.a = SetAt(SetAt(h.a, u, v, 1), v, u, 1), !.w = SetAt(SetAt(h.w, u, v, x), v, u, x)]
SlotU(i) == i \div N + 1
SlotV(i) == i - N * (i \div N) + 1
Slot(i) == (DIR \/ SlotU(i) <= SlotV(i)) /\ (LOOPS \/ SlotU(i) # SlotV(i))
Init == last = -1 /\ \E n \in 0..N : g = Empty(n)
Next == \E i \in (last + 1)..(N * N - 1) : \E x \in WS :
          /\ Slot(i) /\ SlotU(i) <= NV(g) /\ SlotV(i) <= NV(g)
          /\ last' = i /\ g' = AddE(g, SlotU(i), SlotV(i), x)
Spec == Init /\ [][Next]_vars

St(x) == [g |-> x, h |-> HopDist(OutFn(x)), wd |-> <<>>, neg |-> {}]
StW(x) == LET w == TLCEval(WDist(x)) IN [g |-> x, h |-> HopDist(OutFn(x)), wd |-> w, neg |-> NegNodes(w, x)]
SetO(X) == [k |-> "set", v |-> SetToSeq(X)]
BoolO(b) == [k |-> "bool", v |-> b]
IntO(x) == [k |-> "int", v |-> x]
MapO(D, F(_)) == [k |-> "map", v |-> SetToSeq({<<u, F(u)>> : u \in D})]
Accepts(c) == c = ""
\* every simple path of g, as a sequence of nodes
SimplePathsOf(x) == {p \in UNION {[1..k -> V(x)] : k \in 1..NV(x)} : NoDup(p) /\ RealPath(x, p)}
SimpleCyclesOf(x) == {p \in SimplePathsOf(x) : x.a[p[Len(p)]][p[1]] = 1}
CycleWeight(x, p) == PathWeight(x, p) + x.w[p[Len(p)]][p[1]]
PermsOf(x) == {p \in [1..N -> 1..N] : (\A i, j \in 1..N : p[i] = p[j] => i = j) /\ \A i \in 1..N : i \in V(x) <=> p[i] \in V(x)}
Inv(p) == [i \in 1..N |-> CHOOSE j \in 1..N : p[j] = i]
Rename(x, p) == LET q == Inv(p) IN
  [x EXCEPT !.nd = [i \in 1..NV(x) |-> p[x.nd[i]]],
            !.a = [u \in 1..N |-> [v \in 1..N |-> x.a[q[u]][q[v]]]],
            !.w = [u \in 1..N |-> [v \in 1..N |-> x.w[q[u]][q[v]]]]]
Image(p, S) == {p[u] : u \in S}

WS_m1_0_1_2 == {-1,0,1,2}
WS_m1_0_1_3 == {-1,0,1,3}
WS_m1_0_1 == {-1,0,1}
WS_m1_1 == {-1,1}
WS_m1_2 == {-1,2}
WS_0_1_3 == {0,1,3}
WS_1_2_5 == {1,2,5}
WS_1_2 == {1,2}
WS_1_3 == {1,3}
WS_1 == {1}
WS_3 == {3}

WellFormedAlways == WellFormed(g)

(* ------------------------- reachability (C04, C05) ---------------------- *)
HopIsShortestWalk ==
  LET out == OutFn(g)  h == HopDist(out) IN \A u, v \in V(g) : h[u][v] = HopDecl(out, u, v)
Closed(X, E) == \A p \in E : p[1] \in X => p[2] \in X
\* descendants: the least set closed under edges, without the node itself
DescendantsAccepted ==
  LET s == TLCEval(St(g)) IN
  \A u \in V(g) : \A X \in SUBSET V(g) :
     Accepts(ReachVerdict(s, [op |-> "descendants", u |-> u, o |-> SetO(X)]))
       <=> /\ u \notin X /\ Closed(X \union {u}, Edges(g))
           /\ \A Y \in SUBSET (X \union {u}) : u \in Y /\ Closed(Y, Edges(g)) => Y = X \union {u}
AncestorsAreDescendantsOfTheReverse ==
  LET s == TLCEval(St(g))  t == TLCEval(St(Transpose(g))) IN
  \A u \in V(g) : \A X \in SUBSET V(g) :
     Accepts(ReachVerdict(s, [op |-> "ancestors", u |-> u, o |-> SetO(X)]))
       <=> Accepts(ReachVerdict(t, [op |-> "descendants", u |-> u, o |-> SetO(X)]))
\* connected: every cut is crossed
Crossed == \A X \in SUBSET V(g) \ {{}, V(g)} :
              \E p \in Edges(g) : (p[1] \in X) # (p[2] \in X)
ConnectedAccepted ==
  LET s == TLCEval(St(g))  op == IF DIR THEN "is_weakly_connected" ELSE "is_connected" IN
  NV(g) > 0 => \A b \in BOOLEAN : Accepts(ReachVerdict(s, [op |-> op, o |-> BoolO(b)])) <=> b = Crossed
ComponentsPartition ==
  LET s == TLCEval(St(g)) IN
  ~DIR => /\ \A u, v \in V(g) : Component(s, u) = Component(s, v) \/ Component(s, u) \cap Component(s, v) = {}
          /\ \A u \in V(g) : u \in Component(s, u) /\ Closed(Component(s, u), Edges(g))
\* of all ways to put nodes into layers exactly one is accepted: each node follows one of the layer before
LayersAccepted ==
  LET s == TLCEval(St(g)) IN
  NV(g) <= 3 => \A S \in SUBSET V(g) \ {{}} : \A f \in [V(g) -> 0..NV(g)] :
     LET used == {f[v] : v \in V(g)} \ {NV(g)}          \* layer NV(g): not reached
         k == Cardinality(used)
         o == [k |-> "lol", v |-> [i \in 1..k |-> SetToSeq({v \in V(g) : f[v] = i - 1})]]
         good == /\ used = 0..(k - 1)
                 /\ {v \in V(g) : f[v] = 0} = S
                 /\ \A p \in Edges(g) : f[p[1]] < NV(g) => f[p[2]] <= f[p[1]] + 1 /\ f[p[2]] < NV(g)
                 /\ \A v \in V(g) : f[v] \in 1..(NV(g) - 1) => \E u \in V(g) : f[u] = f[v] - 1 /\ IsE(g, u, v)
     IN Accepts(ReachVerdict(s, [op |-> "bfs_layers", S |-> SetToSeq(S), o |-> o])) <=> good
LCAExists ==
  LET s == TLCEval(St(g)) IN
  (DIR /\ Acyclic(s)) => \A x, y \in V(g) :
     LET C == CommonAnc(s, x, y)  L == LCASet(s, x, y) IN
       /\ (C = {}) = (L = {}) /\ LCASet(s, x, x) = {x}
       /\ \A c \in C : \E a \in L : s.h[c][a] < Inf
       /\ (s.h[x][y] < Inf => L = {x})
HopMetric ==
  LET h == HopDist(OutFn(g)) IN
  \A u, v, m \in V(g) : /\ (h[u][m] < Inf /\ h[m][v] < Inf => h[u][v] <= h[u][m] + h[m][v])
                        /\ (h[u][v] = 0 <=> u = v)
                        /\ (~DIR => h[u][v] = h[v][u])
                        /\ (h[u][v] < Inf => h[u][v] < NV(g))

(* -------------------- weighted shortest paths (C06-C08) ----------------- *)
WDistIsSimplePathMinimum ==
  LET s == TLCEval(StW(g))  P == TLCEval(SimplePathsOf(g)) IN
  \A u, v \in V(g) :
     LET Q == {p \in P : p[1] = u /\ p[Len(p)] = v} IN
       IF Q = {} THEN s.wd[u][v] = Inf
       ELSE IF NegBetween(s, u, v) THEN s.wd[u][v] < Inf
       ELSE s.wd[u][v] = MinOf({PathWeight(g, p) : p \in Q})
NegativeCycles ==
  LET s == TLCEval(StW(g))
      C == TLCEval({p \in SimpleCyclesOf(g) : CycleWeight(g, p) < 0})
      on == UNION {Rng(p) : p \in C}
  IN  /\ HasNegCycle(s) = (C # {})
      /\ on \subseteq s.neg
      /\ \A u \in V(g) : NegReach(s, u) = (\E x \in on : s.h[u][x] < Inf)
      /\ \A u, v \in V(g) : NegBetween(s, u, v) = (\E x \in on : s.h[u][x] < Inf /\ s.h[x][v] < Inf)
WDistFeasible ==
  LET s == TLCEval(StW(g)) IN
  ~HasNegCycle(s) => \A u \in V(g) :
     /\ s.wd[u][u] = 0
     /\ \A p \in Edges(g) : s.wd[u][p[1]] < Inf => s.wd[u][p[2]] <= s.wd[u][p[1]] + g.w[p[1]][p[2]]
     /\ \A v \in V(g) : (s.wd[u][v] < Inf) = (s.h[u][v] < Inf)
     /\ \A v \in V(g) : u # v /\ s.wd[u][v] < Inf => \E p \in Edges(g) : p[2] = v /\ s.wd[u][p[1]] + g.w[p[1]][v] = s.wd[u][v]
UnitWeightsAreHops ==
  LET one == [g EXCEPT !.w = g.a] IN WDist(one) = (IF NV(g) = 0 THEN <<>> ELSE HopDist(OutFn(g)))
\* a minimum simple path is always an acceptable answer of bellman_ford_path, and nothing heavier is
BfPathAccepted ==
  LET s == TLCEval(StW(g)) IN
  ~HasNegCycle(s) => \A p \in SimplePathsOf(g) :
     LET u == p[1]  v == p[Len(p)] IN
     Accepts(WeightedVerdict(s, [op |-> "bf_path", u |-> u, v |-> v, o |-> [k |-> "list", v |-> p]]))
       <=> \A q \in SimplePathsOf(g) : q[1] = u /\ q[Len(q)] = v => PathWeight(g, p) <= PathWeight(g, q)

(* -------------------------- properties (C01) ---------------------------- *)
RedE(ax, pop, off, o) == [op |-> "prop", pk |-> "red", pop |-> pop, ax |-> ax, off |-> off, m |-> <<>>, o |-> o]
ReductionsAgree ==
  \A off \in BOOLEAN : \A pop \in {"count", "plus", "min", "max"} :
    LET t == Transpose(g)
        D == {u \in V(g) : Line(g, "row", off, u) # {}}
        o == MapO(D, LAMBDA u : ReduceE(g, pop, Line(g, "row", off, u)))
    IN /\ Accepts(PropVerdict([g |-> g], RedE("row", pop, off, o)))
       /\ Accepts(PropVerdict([g |-> t], RedE("col", pop, off, o)))
       /\ (~DIR => Accepts(PropVerdict([g |-> g], RedE("col", pop, off, o))))
       /\ (Ent(g, off) # {} /\ pop \in {"count", "plus"}) =>
            ReduceE(g, pop, Ent(g, off)) = SumOver(D, LAMBDA u : ReduceE(g, pop, Line(g, "row", off, u)))
       /\ (Ent(g, off) # {} /\ pop \in {"min", "max"}) =>
            ReduceE(g, pop, Ent(g, off)) = Extremum(pop, {ReduceE(g, pop, Line(g, "row", off, u)) : u \in D})
PRecip(x, off, u) == {v \in OutN(x, u) \cap InN(x, u) : ~off \/ u # v}
RecipTotals ==
  \A off \in BOOLEAN :
    /\ SumOver(V(g), LAMBDA u : Cardinality(PRecip(g, off, u))) =
         Cardinality({p \in Edges(g) : g.a[p[2]][p[1]] = 1 /\ (~off \/ p[1] # p[2])})
    /\ \A u \in V(g) : LET r == Cardinality(PRecip(g, off, u)) IN
         r <= Cardinality(Line(g, "row", off, u)) /\ r <= Cardinality(Line(g, "col", off, u))

(* --------------------- triangles and clustering (C09, C10) -------------- *)
Clique3(x, S) == Cardinality(S) = 3 /\ \A u, v \in S : u # v => x.a[u][v] = 1
TriangleCount ==
  ~DIR => LET nb == OutFn(g)  C == {S \in SUBSET V(g) : Clique3(g, S)} IN
    /\ \A u \in V(g) : Tri(nb, u) = Cardinality({S \in C : u \in S})
    /\ SumOver(V(g), LAMBDA u : Tri(nb, u)) = 3 * Cardinality(C)
    /\ \A u \in V(g) : /\ SumOver(GD(nb, u), LAMBDA t : t[2] * t[3]) = 2 * Tri(nb, u)
                       /\ SumOver(GD(nb, u), LAMBDA t : t[3]) = Cardinality(nb[u])
\* directed clustering counts closed directed triads over all eight orientations; on a symmetric digraph it is the undirected value
Arc(x, u, v, k) == IF k = 0 THEN x.a[u][v] ELSE x.a[v][u]
ClusteringDefinition ==
  LET cc == CCAll(g, FALSE, V(g)) IN
  \A u \in V(g) :
    LET P == {p \in (V(g) \ {u}) \X (V(g) \ {u}) : p[1] # p[2]}
        tri == SumOver(P, LAMBDA p : Cardinality({k \in (0..1) \X (0..1) \X (0..1) :
                   Arc(g, u, p[1], k[1]) * Arc(g, p[1], p[2], k[2]) * Arc(g, p[2], u, k[3]) = 1}))
        d == Cardinality(OutX(g, u)) + Cardinality(InX(g, u))
        r == Cardinality(OutX(g, u) \cap InX(g, u))
        du == Cardinality(OutX(g, u))
        want == IF g.dir THEN <<tri, 2 * (d * (d - 1) - 2 * r)>> ELSE <<tri \div 8, du * (du - 1)>>
    IN IF want[1] = 0 THEN cc[u] = <<0, 1>> ELSE cc[u] = want /\ want[1] <= want[2]
SymmetricClusteringAgrees ==
  ~DIR => LET cu == CCAll(g, FALSE, V(g))  cd == CCAll([g EXCEPT !.dir = TRUE], FALSE, V(g)) IN
    \A u \in V(g) : cu[u][1] * cd[u][2] = cd[u][1] * cu[u][2]
SquareCount ==
  (~DIR /\ ~HasLoops(g)) => LET nb == OutFn(g) IN \A u \in V(g) :
     LET C4 == {p \in V(g) \X V(g) \X V(g) :
                  /\ Cardinality({u, p[1], p[2], p[3]}) = 4
                  /\ g.a[u][p[1]] * g.a[p[1]][p[2]] * g.a[p[2]][p[3]] * g.a[p[3]][u] = 1}
     IN 2 * SqNum(nb, u) = Cardinality(C4) /\ SqNum(nb, u) <= SqDen(nb, u)

(* ---------------------------- subgraphs (C11) --------------------------- *)
SymE(x) == {p \in Edges(x) : p[1] < p[2]}
BothWays(E) == E \union {<<p[2], p[1]>> : p \in E}
Supported(E, m) == LET B == BothWays(E) IN
  \A p \in E : Cardinality({v \in V(g) : <<p[1], v>> \in B /\ <<v, p[2]>> \in B}) >= m
TrussIsLargest ==
  ~DIR => \A k \in 2..5 :
     TrussE(g, k) = BothWays(UNION {E \in SUBSET SymE(g) : Supported(E, k - 2)})
TrussNested == ~DIR => \A k \in 2..5 : TrussE(g, k + 1) \subseteq TrussE(g, k)
EgoIsBall ==
  \A u \in V(g) : \A r \in 0..3 : \A und \in BOOLEAN :
    LET e(rad) == [op |-> "ego_graph", u |-> u, rad |-> rad, wt |-> FALSE, und |-> und, center |-> TRUE]
        out == ReachOut(g, und)
    IN /\ EgoNodes(g, e(<<r>>)) = {v \in V(g) : HopDecl(out, u, v) <= r}
       /\ EgoNodes(g, e(<<r>>)) \subseteq EgoNodes(g, e(<<r + 1>>))
       /\ EgoNodes(g, e(<<>>)) = {v \in V(g) : HopDecl(out, u, v) < Inf}

(* ------------------------------ cuts (C12) ------------------------------ *)
CutIdentities ==
  \A S \in SUBSET V(g) :
    LET T == V(g) \ S
        arcs(A, B) == Cardinality({p \in Edges(g) : p[1] \in A /\ p[2] \in B})
        warcs(A, B) == SumW(g, {p \in Edges(g) : p[1] \in A /\ p[2] \in B})
    IN /\ CutSize(g, S, T, FALSE) = CutSize(g, T, S, FALSE)
       /\ CutSize(g, S, T, FALSE) = (IF DIR THEN arcs(S, T) + arcs(T, S) ELSE arcs(S, T))
       /\ CutSize(g, S, T, TRUE) = (IF DIR THEN warcs(S, T) + warcs(T, S) ELSE warcs(S, T))
       /\ Volume(g, S, FALSE) + Volume(g, T, FALSE) = Volume(g, V(g), FALSE)
       /\ Volume(g, S, TRUE) = arcs(S, V(g)) * 0 + warcs(S, S) + warcs(S, T)
       /\ Volume(g, S, FALSE) = SumOver(S, LAMBDA u : DOut(g, u))
       /\ NodeBoundary(g, S) = Neighborhood(g, S) \ S
       /\ (V(g) = S \union NodeBoundary(g, S)) = (\A v \in T : \E u \in S : IsE(g, u, v))
DegreesSum ==
  /\ SumOver(V(g), LAMBDA u : Deg(g, u)) = (IF DIR THEN 2 * Cardinality(Edges(g))
        ELSE 2 * Cardinality(UEdges(g)) - Cardinality(Loops(g)))
  /\ 2 * SMetric(g) = (IF DIR THEN 2 ELSE 1) * SumOver(Edges(g), LAMBDA p : Deg(g, p[1]) * Deg(g, p[2]))
        + (IF DIR THEN 0 ELSE SumOver(Loops(g), LAMBDA u : Deg(g, u) * Deg(g, u)))

(* --------------------------- operators (C13) ---------------------------- *)
GraphsOf(n) == {x \in {[Empty(n) EXCEPT !.a = m, !.w = m] :
                  m \in {q \in [1..N -> [1..N -> 0..1]] : \A u, v \in 1..N : q[u][v] = 1 => u <= n /\ v <= n}} : WellFormed(x)}
Op1(f, x, o) == OperatorsVerdict(<<[g |-> x]>>, [op |-> f, g |-> 1, g2 |-> 1, wt |-> FALSE, recip |-> FALSE, o |-> o])
Op2(f, x, y, o) == OperatorsVerdict(<<[g |-> x], [g |-> y]>>, [op |-> f, g |-> 1, g2 |-> 2, wt |-> FALSE, recip |-> FALSE, o |-> o])
GO(x) == [k |-> "graph", g |-> x]
OfEdges(E) == [g EXCEPT !.a = [u \in 1..N |-> [v \in 1..N |-> B2I(<<u, v>> \in E)]],
                        !.w = [u \in 1..N |-> [v \in 1..N |-> B2I(<<u, v>> \in E)]]]
NonLoop == {p \in V(g) \X V(g) : p[1] # p[2]}
UnaryLaws ==
  LET c == OfEdges(NonLoop \ Edges(g))  t == Transpose(OfEdges(Edges(g))) IN
    /\ Accepts(Op1("complement", g, GO(c)))
    /\ Accepts(Op1("complement", c, GO(OfEdges(Edges(g) \cap NonLoop))))
    /\ Accepts(Op2("compose", g, c, GO(OfEdges(NonLoop \union Edges(g)))))
    /\ Accepts(Op2("intersection", g, c, GO(OfEdges({}))))
    /\ DIR => Accepts(Op1("reverse", g, GO(t))) /\ Accepts(Op1("reverse", t, GO(OfEdges(Edges(g)))))
\* any two graphs over the same nodes: exactly one result is accepted, the one of set algebra
BinaryLaws ==
  LET A == Edges(g)  G == GraphsOf(NV(g)) IN
  \A y \in G : \A o \in G :
    LET B == Edges(y)  R == Edges(o) IN
    /\ Accepts(Op2("intersection", g, y, GO(o))) <=> R = A \cap B
    /\ Accepts(Op2("difference", g, y, GO(o))) <=> R = A \ B
    /\ Accepts(Op2("symmetric_difference", g, y, GO(o))) <=> R = (A \union B) \ (A \cap B)
    /\ Accepts(Op2("compose", g, y, GO(o))) <=> R = A \union B

(* ----------------------- isomorphism filters (C14) ---------------------- *)
FiltersNeverRejectIsomorphs ==
  \A p \in PermsOf(g) :
    LET h == Rename(g, p)
        st == <<[g |-> g], [g |-> h]>>
        e(op) == [op |-> op, g |-> 1, g2 |-> 2, wit |-> [i \in 1..NV(g) |-> p[g.nd[i]]], o |-> BoolO(TRUE)]
    IN /\ IsIso(g, h, [i \in 1..NV(g) |-> p[g.nd[i]]])
       /\ Accepts(DegreeVerdict(st, e("faster_iso")))
       /\ ~DIR => Accepts(DegreeVerdict(st, e("fast_iso")))

(* --------------------------- predicates (C15) --------------------------- *)
Blocks == {P \in SUBSET (SUBSET V(g) \ {{}}) : UNION P = V(g) /\ \A X, Y \in P : X = Y \/ X \cap Y = {}}
CommunityEdges ==
  \A P \in Blocks : LET s == SetToSeq({SetToSeq(X) : X \in P}) IN
    \A k \in 0..Cardinality(UEdges(g)) :
       Accepts(PredicatesVerdict([g |-> g], [op |-> "inter_edges", P |-> s, o |-> IntO(k)]))
       <=> Accepts(PredicatesVerdict([g |-> g], [op |-> "intra_edges", P |-> s, o |-> IntO(Cardinality(UEdges(g)) - k)]))
Tournaments ==
  (DIR /\ IsTournament(g)) =>
     /\ SumOver(V(g), LAMBDA u : DOut(g, u)) = (NV(g) * (NV(g) - 1)) \div 2
     /\ \A S \in SUBSET V(g) : SumOver(S, LAMBDA u : DOut(g, u)) >= (Cardinality(S) * (Cardinality(S) - 1)) \div 2
     /\ NV(g) > 0 => \E p \in SimplePathsOf(g) : Len(p) = NV(g)      \* Redei
     /\ \A p \in SimplePathsOf(g) : IsSimplePath(g, p) /\ IsSimplePath(Transpose(g), Reverse(p))

(* ---------------------------- matrices (C16) ---------------------------- *)
MatO(F(_, _)) == [k |-> "mat", v |-> [i \in 1..NV(g) |-> [j \in 1..NV(g) |-> F(g.nd[i], g.nd[j])]]]
ME(op, wt, r, o) == [op |-> op, nl |-> <<>>, wt |-> wt, r |-> r, o |-> o]
MV(op, wt, r, o) == Accepts(MatricesVerdict([g |-> g], ME(op, wt, r, o)))
LapE(u, v) == (IF u = v THEN DOut(g, u) ELSE 0) - g.a[u][v]
LaplacianLaws ==
  NV(g) > 0 =>
    /\ MV("laplacian_matrix", FALSE, <<>>, MatO(LapE))
    /\ \A u \in V(g) : SumOver(V(g), LAMBDA v : LapE(u, v)) = 0
    \* the quadratic form of the Laplacian is the cut function
    /\ ~DIR => \A S \in SUBSET V(g) :
         SumOver(S, LAMBDA u : SumOver(S, LAMBDA v : LapE(u, v))) = CutSize(g, S, V(g) \ S, FALSE)
    \* deformed Laplacian at r = 1
    /\ ~DIR => MV("bethe_hessian_matrix", FALSE, <<1, 1>>, MatO(LAMBDA u, v : LapE(u, v) * Mil))
    \* a matrix that differs in one entry is not accepted
    /\ \A p \in V(g) \X V(g) :
         ~MV("laplacian_matrix", FALSE, <<>>, MatO(LAMBDA u, v : LapE(u, v) + B2I(<<u, v>> = p)))
ModularityLaws ==
  (NV(g) > 0 /\ Edges(g) # {}) =>
    LET m == Cardinality(Edges(g))
        F(u, v) == RatFix(g.a[u][v] * m - DOut(g, u) * DIn(g, v), m)
        op == IF DIR THEN "directed_modularity_matrix" ELSE "modularity_matrix"
    IN /\ MV(op, FALSE, <<>>, MatO(F))
       /\ ~DIR => \A u \in V(g) : Abs(SumOver(V(g), LAMBDA v : F(u, v))) <= NV(g)
       /\ \A p \in V(g) \X V(g) : ~MV(op, FALSE, <<>>, MatO(LAMBDA u, v : F(u, v) + 10 * B2I(<<u, v>> = p)))

(* ---------------------------- ranking (C17, C18) ------------------------ *)
AL == <<85, 100>>
Pts == {f \in [V(g) -> {0, 250000, 500000, 1000000}] : SumOver(V(g), LAMBDA v : f[v]) = Mil}
Wk(x) == LET S == V(g)  w == [u \in S |-> [v \in S |-> g.w[u][v]]]
             r == TLCEval([u \in S |-> SumOver(S, LAMBDA v : w[u][v])])
             one == [v \in S |-> 1]
         IN PRStep(S, w, r, x, 0, one, NV(g), one, NV(g), AL)
\* the damped walk keeps the total mass and is a contraction in L1 by alpha: one fixpoint, reached from anywhere
PageRankContracts ==
  NV(g) > 0 => \A x \in Pts :
    LET y == Wk(x) IN
    /\ Abs(SumOver(V(g), LAMBDA v : y[v]) - Mil) <= NV(g) * NV(g) + 4 * NV(g)
    /\ \A v \in V(g) : y[v] >= 0
    /\ \A z \in Pts : LET t == Wk(z) IN
         100 * AbsSum(V(g), LAMBDA v : y[v] - t[v]) <= 85 * AbsSum(V(g), LAMBDA v : x[v] - z[v]) + 100 * (NV(g) * NV(g) + 4 * NV(g))

(* ----------------- names and storage order do not matter ---------------- *)
Equivariant ==
  LET s == TLCEval(StW(g))  out == OutFn(g)  cc == CCAll(g, FALSE, V(g)) IN
  \A p \in PermsOf(g) :
    LET x == TLCEval(Rename(g, p))  t == TLCEval(StW(x))  out2 == OutFn(x)  cc2 == CCAll(x, FALSE, V(x)) IN
    /\ WellFormed(x)
    /\ \A u, v \in V(g) : /\ t.h[p[u]][p[v]] = s.h[u][v]
                          /\ (s.neg = {} => t.wd[p[u]][p[v]] = s.wd[u][v])
    /\ t.neg = Image(p, s.neg)
    /\ \A u \in V(g) : /\ Tri(out2, p[u]) = Tri(out, u) /\ cc2[p[u]] = cc[u]
                       /\ Deg(x, p[u]) = Deg(g, u)
    /\ SMetric(x) = SMetric(g)
    /\ ~DIR => \A k \in 3..4 : TrussE(x, k) = {<<p[q[1]], p[q[2]]>> : q \in TrussE(g, k)}
    /\ \A S \in SUBSET V(g) : /\ CutSize(x, Image(p, S), Image(p, V(g) \ S), TRUE) = CutSize(g, S, V(g) \ S, TRUE)
                              /\ NodeBoundary(x, Image(p, S)) = Image(p, NodeBoundary(g, S))

(* ---------------- conversion and labels (C03, C24) ---------------------- *)
\* writing a graph out edge by edge, in any order and orientation, and reading it back gives the graph
SrcOf(x, L) == [src |-> [nd |-> x.nd, dir |-> x.dir, multi |-> FALSE,
                         E |-> [i \in 1..Len(L) |-> <<L[i][1], L[i][2], 1, x.w[L[i][1]][L[i][2]]>>]],
                use |-> TRUE, bool |-> FALSE, sc |-> 1, N |-> N]
Turn(L, k) == [i \in 1..Len(L) |-> IF (i \div 2) * 2 = i - k THEN <<L[i][2], L[i][1]>> ELSE L[i]]
RoundTrip ==
  LET L == SetToSeq(UEdges(g)) IN
  /\ SrcGraph(SrcOf(g, L)) = g
  /\ SrcGraph(SrcOf(g, Reverse(L))) = g
  /\ ~DIR => \A k \in 0..1 : SrcGraph(SrcOf(g, Turn(L, k))) = g
  \* and what is written out is accepted as the image of the graph, without any edge it is not
  /\ LET o(Q) == [k |-> "nx", dir |-> DIR, nd |-> g.nd, attrs |-> TRUE, E |-> [i \in 1..Len(Q) |-> <<Q[i][1], Q[i][2], g.w[Q[i][1]][Q[i][2]]>>]]
         acc(Q) == ConvertVerdict(<<[g |-> g]>>, [op |-> "nx_out", g |-> 1, attr |-> "weight", o |-> o(Q)]) = ""
     IN /\ acc(L) /\ acc(Reverse(L)) /\ (L # <<>> => ~acc(Tail(L)) /\ ~acc(Append(Tail(L), L[Len(L)])) = (Len(L) > 1))
\* positions and labels are inverse of each other for every storage order
LbPos(x, u) == (CHOOSE i \in 1..Len(x.nd) : x.nd[i] = u) - 1
LabelsBijective ==
  \A p \in PermsOf(g) : LET x == Rename(g, p) IN
    /\ \A i \in 0..(NV(x) - 1) : LbPos(x, Lab(x, i)) = i
    /\ \A u \in V(x) : Lab(x, LbPos(x, u)) = u

(* ---------------------- refused requests (C21) -------------------------- *)
\* a request is either refused for a stated reason or has to be answered, never both;
\* an exception of no kind asked for is never accepted
InvE(fn, ns) == [op |-> "inv", g |-> 1, fn |-> fn, ns |-> ns, ss |-> <<>>, nl |-> <<>>, h2 |-> 0, multi |-> FALSE, multi2 |-> FALSE, bad |-> FALSE]
InvAcc(e, o) == InvalidVerdict(<<[g |-> g]>>, [x \in DOMAIN e \union {"o"} |-> IF x = "o" THEN o ELSE e[x]]) = ""
RefusalTotal ==
  \A fn \in DirRefused \union UndRefused \union NeedsNode \union NeedsNodeE \union EmptyError :
    \A u \in 1..N :
      LET e == InvE(fn, IF fn \in NeedsNode \union NeedsNodeE THEN <<u>> ELSE <<>>)
          ans == [k |-> "answer"]
          odd == [k |-> "exc", c |-> <<"SegmentationFault">>]
      IN /\ InvAcc(e, ans) = (Must(<<[g |-> g]>>, e) = {})
         /\ (InvAcc(e, odd) => "Exception" \in Must(<<[g |-> g]>>, e) \union May(<<[g |-> g]>>, e))
         /\ \A c \in Must(<<[g |-> g]>>, e) : InvAcc(e, [k |-> "exc", c |-> <<c>>])
=============================================================================
