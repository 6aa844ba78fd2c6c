-------------------------------- MODULE Reach --------------------------------
(***************************************************************************)
(* Reachability, connectivity, breadth-first layers, unweighted distance.  *)
(* s is the derived store record: s.g graph, s.h hop-distance function.    *)
(***************************************************************************)
EXTENDS Outcome

Desc(s, u) == LET r == TLCEval(HRow(s, u)) IN {v \in V(s.g) : v # u /\ r[v] < Inf}
Anc(s, u)  == LET c == TLCEval(HCol(s, u)) IN {v \in V(s.g) : v # u /\ c[v] < Inf}
Component(s, u) == LET r == TLCEval(HRow(s, u)) IN {v \in V(s.g) : r[v] < Inf}
Connected(s) == IF s.h = <<>>      \* (large undirected graphs: from any one node)
                THEN LET r == TLCEval(HRow(s, s.g.nd[1])) IN \A v \in V(s.g) : r[v] < Inf
                ELSE \A u, v \in V(s.g) : s.h[u][v] < Inf
WeaklyConnected(g) ==
  LET f == AnyFn(g)  r == CHOOSE x \in V(g) : TRUE
      d == HopFrom(f, {r})
  IN  \A v \in V(g) : d[v] < Inf
MinHop(s, S) == IF s.h = <<>> THEN HopFrom(OutFn(s.g), S) ELSE [v \in V(s.g) |-> MinOf({s.h[u][v] : u \in S})]
Acyclic(s) == \A u, v \in V(s.g) : (IsE(s.g, u, v) => s.h[v][u] = Inf)
CommonAnc(s, x, y) == {a \in V(s.g) : s.h[a][x] < Inf /\ s.h[a][y] < Inf}
LCASet(s, x, y) == LET C == CommonAnc(s, x, y)
                   IN  {a \in C : \A b \in C : b # a => s.h[a][b] = Inf}

Within(cut, d) == d < Inf /\ (cut = <<>> \/ d <= cut[1] \/ d = 0)

LayersOk(s, S, o) ==
  LET d == TLCEval(MinHop(s, S))
      K == {d[v] : v \in {x \in V(s.g) : d[x] < Inf}}
  IN  /\ o.k = "lol"
      /\ Len(o.v) = Cardinality(K)
      /\ \A i \in 1..Len(o.v) :
            NoDup(o.v[i]) /\ Rng(o.v[i]) = {v \in V(s.g) : d[v] = i - 1}

ReachVerdict(s, e) ==
  LET g == s.g  o == e.o IN
  CASE e.op = "descendants" ->
         IF e.u \notin V(g) THEN If(Raises(o, ENX), "descendants.missing")
         ELSE If(IsSet(o, Desc(s, e.u)), "descendants.set")
    [] e.op = "ancestors" ->
         IF e.u \notin V(g) THEN If(Raises(o, ENX), "ancestors.missing")
         ELSE If(IsSet(o, Anc(s, e.u)), "ancestors.set")
    [] e.op = "has_path" ->
         IF {e.u, e.v} \ V(g) # {} THEN If(Raises(o, ENotFound), "has_path.missing")
         ELSE If(IsBool(o, HRow(s, e.u)[e.v] < Inf), "has_path.value")
    [] e.op = "is_connected" ->
         IF g.dir THEN If(Raises(o, ENotImpl), "is_connected.directed")
         ELSE IF NV(g) = 0 THEN If(Raises(o, EPointless), "is_connected.null")
         ELSE If(IsBool(o, Connected(s)), "is_connected.value")
    [] e.op = "node_connected_component" ->
         IF g.dir THEN If(Raises(o, ENotImpl), "ncc.directed")
         ELSE IF e.u \notin V(g) THEN If(Raises(o, {"KeyError", "NetworkXException"}), "ncc.missing")
         ELSE If(IsSet(o, Component(s, e.u)), "ncc.set")
    [] e.op = "is_weakly_connected" ->
         IF ~g.dir THEN If(Raises(o, ENotImpl), "weak.undirected")
         ELSE IF NV(g) = 0 THEN If(Raises(o, EPointless), "weak.null")
         ELSE If(IsBool(o, WeaklyConnected(g)), "weak.value")
    [] e.op = "bfs_layers" ->
         IF Rng(e.S) \ V(g) # {} THEN If(Raises(o, ENX), "bfs_layers.missing")
         ELSE IF e.S = <<>> THEN If(o.k = "lol" /\ o.v = <<>>, "bfs_layers.empty")
         ELSE If(LayersOk(s, Rng(e.S), o), "bfs_layers.layers")
    [] e.op = "descendants_at_distance" ->
         IF e.u \notin V(g) THEN If(Raises(o, ENX), "dad.missing")
         ELSE LET r == TLCEval(HRow(s, e.u)) IN If(IsSet(o, {v \in V(g) : r[v] = e.k}), "dad.set")
    [] e.op = "lowest_common_ancestor" ->
         IF ~g.dir THEN If(Raises(o, ENotImpl), "lca.undirected")
         ELSE IF {e.u, e.v} \ V(g) # {} THEN If(Raises(o, {"NodeNotFound", "NetworkXError"}), "lca.missing")
         ELSE IF ~Acyclic(s) THEN ""      \* only defined on DAGs
         ELSE LET L == LCASet(s, e.u, e.v) IN
              IF L = {} THEN If(o.k = "default", "lca.default")
              ELSE If(o.k = "lab" /\ o.v \in L, "lca.node")
    [] e.op = "sssp" ->
         IF e.u \notin V(g) THEN If(Raises(o, ENotFound), "sssp.missing")
         ELSE LET r == TLCEval(HRow(s, e.u)) IN If(IsMap(o, {v \in V(g) : Within(e.cut, r[v])}, LAMBDA v : r[v]), "sssp.map")
    [] e.op = "stsp" ->
         IF e.u \notin V(g) THEN If(Raises(o, ENotFound), "stsp.missing")
         ELSE LET c == TLCEval(HCol(s, e.u)) IN If(IsMap(o, {v \in V(g) : Within(e.cut, c[v])}, LAMBDA v : c[v]), "stsp.map")
    [] e.op = "apsp" ->    \* e.S: rows in scope (<<>> + all = TRUE for all nodes)
         LET R == IF e.all THEN V(g) ELSE Rng(e.S)
             h == IF s.h = <<>> THEN TLCEval([u \in R |-> HRow(s, u)]) ELSE s.h IN
         If(IsMM(o, R, {p \in R \X V(g) : Within(e.cut, h[p[1]][p[2]])}, LAMBDA u, v : h[u][v]), "apsp.map")
    [] e.op = "efficiency" ->
         IF g.dir THEN If(Raises(o, ENotImpl), "efficiency.directed")
         ELSE IF {e.u, e.v} \ V(g) # {} THEN If(Raises(o, ENotFound), "efficiency.missing")
         ELSE IF e.u = e.v THEN If(Raises(o, {"ZeroDivisionError"}), "efficiency.self")
         ELSE LET d == HRow(s, e.u)[e.v] IN
              IF d = Inf THEN If(IsInt(o, 0), "efficiency.unreachable")
              ELSE If(IsRat(o, 1, d, 2), "efficiency.value")
ReachOps == {"descendants", "ancestors", "has_path", "is_connected", "node_connected_component",
  "is_weakly_connected", "bfs_layers", "descendants_at_distance", "lowest_common_ancestor",
  "sssp", "stsp", "apsp", "efficiency"}
=============================================================================
