------------------------------ MODULE Predicates ------------------------------
(***************************************************************************)
(* Tournaments, triads, simple paths, mutual weight, community edges.      *)
(***************************************************************************)
EXTENDS Outcome

IsTournament(g) == /\ ~HasLoops(g)
                   /\ \A u \in V(g) : \A v \in V(g) : u # v => g.a[u][v] + g.a[v][u] = 1
SortedInts(s) == \A i \in 1..Len(s) : i = 1 \/ s[i - 1] <= s[i]
IsSimplePath(g, p) ==
  /\ Len(p) > 0 /\ NoDup(p) /\ \A i \in 1..Len(p) : p[i] \in V(g)
  /\ \A i \in 2..Len(p) : g.a[p[i - 1]][p[i]] = 1
Within(g, B) == Cardinality({p \in UEdges(g) : p[1] \in B /\ p[2] \in B})
IsPartition(g, P) == /\ \A u \in V(g) : Cardinality({i \in 1..Len(P) : u \in Rng(P[i])}) = 1
                     /\ \A i \in 1..Len(P) : Rng(P[i]) \subseteq V(g)
Block(P, u) == CHOOSE i \in 1..Len(P) : u \in Rng(P[i])
MW(g, u, v, unw) == IF u \in V(g) /\ v \in V(g) THEN (IF unw THEN g.a[u][v] * g.sc ELSE g.w[u][v]) ELSE 0

PredicatesVerdict(s, e) ==
  LET g == s.g  o == e.o IN
  CASE e.op = "is_tournament" ->
         IF ~g.dir THEN If(Raises(o, ENotImpl), "is_tournament.undirected")
         ELSE If(IsBool(o, IsTournament(g)), "is_tournament")
    [] e.op = "score_sequence" ->
         IF ~g.dir THEN If(Raises(o, ENotImpl), "score_sequence.undirected")
         ELSE If(/\ o.k = "ints" /\ Len(o.v) = NV(g) /\ SortedInts(o.v)
                 /\ BagOf(o.v) = BagOf([i \in 1..NV(g) |-> Cardinality(OutN(g, g.nd[i]))]), "score_sequence")
    [] e.op = "tournament_matrix" ->
         IF ~g.dir THEN If(Raises(o, ENotImpl), "tournament_matrix.undirected")
         ELSE If(/\ o.k = "mat" /\ Len(o.v) = NV(g)
                 /\ \A i \in 1..NV(g) : \A j \in 1..NV(g) :
                      o.v[i][j] = IF e.unw THEN (g.a[g.nd[i]][g.nd[j]] - g.a[g.nd[j]][g.nd[i]]) * g.sc
                                  ELSE g.w[g.nd[i]][g.nd[j]] - g.w[g.nd[j]][g.nd[i]], "tournament_matrix")
    [] e.op = "is_triad" -> If(IsBool(o, g.dir /\ NV(g) = 3 /\ ~HasLoops(g)), "is_triad")
    [] e.op = "is_simple_path" -> If(IsBool(o, IsSimplePath(g, e.p)), "is_simple_path")
    [] e.op = "mutual_weight" -> If(IsInt(o, MW(g, e.u, e.v, e.unw) + MW(g, e.v, e.u, e.unw)), "mutual_weight")
    [] e.op = "intra_edges" ->
         If(IsInt(o, SumSeq([i \in 1..Len(e.P) |-> Within(g, Rng(e.P[i]))])), "intra_community_edges")
    [] e.op = "inter_edges" ->
         IF ~IsPartition(g, e.P) THEN ""
         ELSE If(IsInt(o, Cardinality({p \in UEdges(g) : Block(e.P, p[1]) # Block(e.P, p[2])})), "inter_community_edges")
PredicatesOps == {"is_tournament", "score_sequence", "tournament_matrix", "is_triad", "is_simple_path",
  "mutual_weight", "intra_edges", "inter_edges"}
=============================================================================
