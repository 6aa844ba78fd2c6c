-------------------------------- MODULE Degree --------------------------------
(***************************************************************************)
(* Degree-based measures: centralities, isolates, regularity, s-metric,    *)
(* reciprocity, and the fast(er) isomorphism filters.  A self-loop of a    *)
(* directed graph counts in and out; of an undirected graph it counts once.*)
(***************************************************************************)
EXTENDS Outcome

DOut(g, u) == Cardinality(OutN(g, u))
DIn(g, u)  == Cardinality(InN(g, u))
Deg(g, u)  == IF g.dir THEN DOut(g, u) + DIn(g, u) ELSE DOut(g, u)
AllEq(S, f(_)) == \A x \in S : \A y \in S : f(x) = f(y)
Regular(g) == IF g.dir THEN AllEq(V(g), LAMBDA u : DOut(g, u)) /\ AllEq(V(g), LAMBDA u : DIn(g, u))
              ELSE AllEq(V(g), LAMBDA u : DOut(g, u))
SMetric(g) == SumOver(UEdges(g), LAMBDA p : Deg(g, p[1]) * Deg(g, p[2]))
\* degree centrality: degree / (n - 1), and 1 in a graph of at most one node
CentIs(g, o, f(_)) == IsMapR(o, V(g), LAMBDA u, x : IF NV(g) <= 1 THEN x = Mil ELSE RatEq(x, f(u), NV(g) - 1, 1))
\* directed edges whose reverse is a different edge of the graph
Recip(g) == {p \in Edges(g) : p[1] # p[2] /\ g.a[p[2]][p[1]] = 1}
RecNum(g, u) == 2 * Cardinality(OutN(g, u) \cap InN(g, u))

Tris(g, u) == LET nb == OutX(g, u) IN Cardinality({p \in nb \X nb : p[1] # p[2] /\ g.a[p[1]][p[2]] = 1}) \div 2
Bag(g, f(_)) == TLCEval(BagOf([i \in 1..NV(g) |-> f(g.nd[i])]))
\* wit[i] is the image of g.nd[i]: does this prove that g and h are isomorphic?
IsIso(g, h, wit) ==
  /\ Len(wit) = NV(g) /\ NoDup(wit) /\ Rng(wit) = V(h)
  /\ \A i \in 1..NV(g) : \A j \in 1..NV(g) : g.a[g.nd[i]][g.nd[j]] = h.a[wit[i]][wit[j]]

DegreeVerdict(st, e) ==
  LET g == st[e.g].g  o == e.o IN
  CASE e.op = "degree_centrality" -> If(CentIs(g, o, LAMBDA u : Deg(g, u)), "degree_centrality")
    [] e.op = "in_degree_centrality" ->
         IF ~g.dir THEN If(Raises(o, ENotImpl), "in_degree_centrality.undirected")
         ELSE If(CentIs(g, o, LAMBDA u : DIn(g, u)), "in_degree_centrality")
    [] e.op = "out_degree_centrality" ->
         IF ~g.dir THEN If(Raises(o, ENotImpl), "out_degree_centrality.undirected")
         ELSE If(CentIs(g, o, LAMBDA u : DOut(g, u)), "out_degree_centrality")
    [] e.op = "is_isolate" ->
         IF e.u \notin V(g) THEN If(Raises(o, ENX), "is_isolate.notfound")
         ELSE If(IsBool(o, Deg(g, e.u) = 0), "is_isolate")
    [] e.op = "isolates" -> If(IsSet(o, {u \in V(g) : Deg(g, u) = 0}), "isolates")
    [] e.op = "number_of_isolates" ->
         If(IsInt(o, Cardinality({u \in V(g) : Deg(g, u) = 0})), "number_of_isolates")
    [] e.op = "is_regular" ->
         IF NV(g) = 0 THEN If(o.k = "exc", "is_regular.empty") ELSE If(IsBool(o, Regular(g)), "is_regular")
    [] e.op = "is_k_regular" ->
         IF g.dir THEN If(Raises(o, ENotImpl), "is_k_regular.directed")
         ELSE If(IsBool(o, \A u \in V(g) : Deg(g, u) = e.k), "is_k_regular")
    [] e.op = "s_metric" -> If(IsInt(o, SMetric(g)), "s_metric")
    [] e.op = "overall_reciprocity" ->
         IF ~g.dir THEN If(o.k = "exc", "overall_reciprocity.undirected")
         ELSE IF Edges(g) = {} THEN If(Raises(o, ENX), "overall_reciprocity.empty")
         ELSE If(IsRat(o, Cardinality(Recip(g)), Cardinality(Edges(g)), 1), "overall_reciprocity")
    [] e.op = "reciprocity" ->
         IF ~g.dir THEN If(o.k = "exc", "reciprocity.undirected")
         ELSE IF e.sel = "all" THEN
              IF Edges(g) = {} THEN If(Raises(o, ENX), "reciprocity.empty")
              ELSE If(IsRat(o, Cardinality(Recip(g)), Cardinality(Edges(g)), 1), "reciprocity.overall")
         ELSE IF e.sel = "one" THEN
              IF e.u \notin V(g) THEN If(NoNodeOk(o), "reciprocity.notfound")
              ELSE IF Deg(g, e.u) = 0 THEN If(Raises(o, ENX), "reciprocity.isolated")
              ELSE If(IsRat(o, RecNum(g, e.u), Deg(g, e.u), 1), "reciprocity.single")
         ELSE If(IsMapR(o, {u \in Rng(e.S) \cap V(g) : Deg(g, u) > 0},
                        LAMBDA u, x : RatEq(x, RecNum(g, u), Deg(g, u), 1)), "reciprocity.map")
    [] e.op \in {"fast_iso", "faster_iso"} ->
         LET h == st[e.g2].g IN
         IF e.op = "fast_iso" /\ g.dir THEN If(Raises(o, ENotImpl), "fast_iso.directed")
         ELSE IF g.dir # h.dir THEN ""
         ELSE IF o.k # "bool" THEN e.op \o ".kind"
         ELSE IF IsIso(g, h, e.wit) /\ ~o.v THEN e.op \o ".rules-out-isomorphic"
         ELSE If(o.v = (IF e.op = "fast_iso"
                        THEN Bag(g, LAMBDA u : <<Deg(g, u), Tris(g, u)>>) = Bag(h, LAMBDA u : <<Deg(h, u), Tris(h, u)>>)
                        ELSE Bag(g, LAMBDA u : Deg(g, u)) = Bag(h, LAMBDA u : Deg(h, u))), e.op \o ".value")
DegreeOps == {"degree_centrality", "in_degree_centrality", "out_degree_centrality", "is_isolate", "isolates",
  "number_of_isolates", "is_regular", "is_k_regular", "s_metric", "overall_reciprocity", "reciprocity",
  "fast_iso", "faster_iso"}
=============================================================================
