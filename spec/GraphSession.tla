----------------------------- MODULE GraphSession -----------------------------
(***************************************************************************)
(* The system specification, bound to the code.  State: the store of       *)
(* graph objects a client has created.  Every public API call is one       *)
(* action; queries leave the store unchanged, constructors/operators       *)
(* extend it, and `Project` observes an object (and must see exactly the   *)
(* abstract graph the store holds).  A recorded session is accepted iff    *)
(* every event's outcome is one the specification allows in the current    *)
(* store; the verdict is total and names the violated clause.              *)
(***************************************************************************)
EXTENDS Outcome, Reach, Weighted, Props, Cluster, Sub, Cuts, Operators, Degree, Predicates, Matrices, Ranking, Containers, Convert, Labels, Chunk, Invalid, Agree, GraphObj, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Has(e, x) == x \in DOMAIN e
Derive(g, need) ==
  LET wd == TLCEval(IF "wd" \in Rng(need) THEN WDist(g) ELSE <<>>) IN
  [g |-> g,
   h |-> IF "hop" \in Rng(need) THEN HopDist(OutFn(g)) ELSE <<>>,
   wd |-> wd,
   neg |-> IF "wd" \in Rng(need) THEN NegNodes(wd, g) ELSE {}]

\* placeholder for a construction that failed (no later event refers to it)
NullG == [nd |-> <<>>, dir |-> FALSE, a |-> <<>>, w |-> <<>>, sc |-> 1]

Verdict(st, e) ==
  IF e.op = "graph" THEN If(WellFormed(e.o.g) /\ ("lazy" \in Rng(e.need) => NoNegWeight(e.o.g)), "harness.graph")
  ELSE IF e.op = "project" THEN
       IF e.o.k # "graph" THEN "project.kind"
       ELSE IF ~SameStruct(e.o.g, st[e.g].g) THEN "project.structure"
       ELSE If(e.o.g.w = st[e.g].g.w, "project.weights")
  ELSE IF e.op = "touch" THEN If(e.o.k = "none", "touch.raises")
  ELSE IF e.op \in ReachOps THEN ReachVerdict(st[e.g], e)
  ELSE IF e.op \in WeightedOps THEN WeightedVerdict(st[e.g], e)
  ELSE IF e.op \in PropsOps THEN PropsVerdict(st[e.g], e)
  ELSE IF e.op \in ClusterOps THEN ClusterVerdict(st[e.g], e)
  ELSE IF e.op \in SubOps THEN SubVerdict(st[e.g], e)
  ELSE IF e.op \in CutsOps THEN CutsVerdict(st[e.g], e)
  ELSE IF e.op \in OperatorsOps THEN OperatorsVerdict(st, e)
  ELSE IF e.op \in DegreeOps THEN DegreeVerdict(st, e)
  ELSE IF e.op \in PredicatesOps THEN PredicatesVerdict(st[e.g], e)
  ELSE IF e.op \in MatricesOps THEN MatricesVerdict(st[e.g], e)
  ELSE IF e.op \in RankingOps THEN RankingVerdict(st[e.g], e)
  ELSE IF e.op \in ContOps THEN ContVerdict(st, e)
  ELSE IF e.op \in ConvertOps THEN ConvertVerdict(st, e)
  ELSE IF e.op \in LabelsOps THEN LabelsVerdict(st[e.g], e)
  ELSE IF e.op \in ChunkOps THEN ChunkVerdict(st[e.g], e)
  ELSE IF e.op \in InvalidOps THEN InvalidVerdict(st, e)
  ELSE IF e.op \in AgreeOps THEN AgreeOrRegistry(st[e.g], e)
  ELSE IF e.op \in ObjOps THEN GraphObjVerdict(st, e)
  ELSE IF e.op = "skip" THEN ""
  ELSE "harness.unknown-op"

Effect(st, e) ==
  IF e.op \in ContOps THEN ContEffect(st, e)
  ELSE IF e.op \in ObjOps THEN
     IF ~Has(e, "res") THEN IF e.op \in {"o_name", "o_set", "o_push", "o_del"} THEN [st EXCEPT ![e.g].at = TLCEval(ObjAttrs(st[e.g], e))] ELSE st
     ELSE Append(st, TLCEval(IF e.o.k = "graph" THEN ObjNew(st, e) @@ Derive(e.o.g, e.need) ELSE ObjNew(st, e) @@ Derive(NullG, <<>>)))
  ELSE IF Has(e, "res")
  THEN Append(st, TLCEval(IF e.o.k = "graph" THEN Derive(e.o.g, e.need) ELSE Derive(NullG, <<>>)))
  ELSE st

VARIABLES sid, l, store
Init == sid \in 1..Len(Trace) /\ l = 1 /\ store = <<>>
Next == /\ l <= Len(Trace[sid].ev)
        /\ \E c \in {Verdict(store, Trace[sid].ev[l])} :
              IF c = "" THEN TRUE ELSE PrintT(<<"VIOL", sid, l, c>>)
        /\ store' = Effect(store, Trace[sid].ev[l])
        /\ l' = l + 1
        /\ UNCHANGED sid
Spec == Init /\ [][Next]_<<sid, l, store>>
Vw == <<sid, l>>
StoreOk == \A i \in 1..Len(store) : WellFormed(store[i].g)
=============================================================================
