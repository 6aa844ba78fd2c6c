------------------------------- MODULE Convert -------------------------------
(***************************************************************************)
(* Conversion between NetworkX graphs and the library's graphs (C03).      *)
(* A NetworkX graph is described by e.src:                                 *)
(*   nd, dir, multi, E = <<u, v, has, w>> in insertion order: `has` says   *)
(*   whether the edge carries the attribute, w is its value (times sc).    *)
(* e.use: the attribute asked for is the one the edges carry; otherwise    *)
(* (or when no attribute is asked for) every edge counts as 1.             *)
(* Parallel edges of a multigraph are one edge with the sum of the values. *)
(***************************************************************************)
EXTENDS Outcome

SrcGraph(e) ==
  LET s == e.src
      Joins(i, u, v) == (s.E[i][1] = u /\ s.E[i][2] = v) \/ (~s.dir /\ s.E[i][1] = v /\ s.E[i][2] = u)
      val(i) == LET x == IF e.use /\ s.E[i][3] = 1 THEN s.E[i][4] ELSE e.sc
                IN  IF e.bool THEN (IF x = 0 THEN 0 ELSE e.sc) ELSE x
      K(u, v) == {i \in 1..Len(s.E) : Joins(i, u, v)}
  IN [nd |-> s.nd, dir |-> s.dir, sc |-> e.sc,
      a |-> TLCEval([u \in 1..e.N |-> TLCEval([v \in 1..e.N |-> B2I(K(u, v) # {})])]),
      w |-> TLCEval([u \in 1..e.N |-> TLCEval([v \in 1..e.N |-> SumOver(K(u, v), val)])])]

\* what the edges of a NetworkX graph must be: every edge once, with exactly the attribute asked for
OutEdges(g, attr) == {<<e[1], e[2], IF attr THEN g.w[e[1]][e[2]] ELSE 0>> : e \in UEdges(g)}
Canon(g, p) == IF g.dir \/ p[1] <= p[2] THEN p ELSE <<p[2], p[1], p[3]>>

ConvertVerdict(st, e) ==
  LET o == e.o IN
  IF e.op = "nx_in" THEN
     IF e.refuse THEN If(Raises(o, {IF "both" \in DOMAIN e /\ e.both THEN "TypeError" ELSE "NotImplementedError"}), "from-nx.accepts")
     ELSE IF o.k # "graph" THEN "from-nx.kind"
     ELSE IF ~SameStruct(o.g, SrcGraph(e)) THEN "from-nx.structure"
     ELSE IF o.g.w # SrcGraph(e).w THEN "from-nx.weights"
     ELSE IF o.multi # e.src.multi THEN "from-nx.multigraph"
     ELSE IF ~o.same THEN "from-nx.input-changed"
     ELSE IF ~o.attrs THEN "from-nx.graph-attributes"
     ELSE If(e.dt = "" \/ o.dt = e.dt, "from-nx.dtype")
  ELSE LET g == st[e.g].g IN   \* nx_out
     IF o.k # "nx" THEN "to-nx.kind"
     ELSE IF o.dir # g.dir THEN "to-nx.directed"
     ELSE IF o.nd # g.nd THEN "to-nx.nodes"
     ELSE IF Len(o.E) # Cardinality(UEdges(g)) THEN "to-nx.edges"
     ELSE IF ~o.attrs THEN "to-nx.attributes"
     ELSE If({Canon(g, o.E[i]) : i \in 1..Len(o.E)} = OutEdges(g, e.attr # ""), "to-nx.edges")

ConvertOps == {"nx_in", "nx_out"}
=============================================================================
