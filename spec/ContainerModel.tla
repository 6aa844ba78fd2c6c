---------------------------- MODULE ContainerModel ----------------------------
(***************************************************************************)
(* L2: a result mapping as the library stores it.  Values live at storage  *)
(* positions (position of key k: K + 1 - k); a fill value stands for every *)
(* missing position until something has to be removed, and is then written *)
(* out; a nested mapping keeps its rows in a matrix, with an indicator of  *)
(* the non-empty rows that is computed on demand and kept up to date.      *)
(* Each operation is the code's; the claim is that its outcome is the one  *)
(* `Containers` allows for the abstract dictionary, and its effect the     *)
(* abstract effect (refinement of the very clauses used on real traces).   *)
(*                                                                         *)
(* With EMIT the transitions are printed, each with the shortest history   *)
(* leading to it: the conformance check replays every one of them on the   *)
(* real containers (transition coverage of this model).                    *)
(***************************************************************************)
EXTENDS Containers, Json
CONSTANTS K, VALS, FILLS, NEST, EMIT
VARIABLES s, S, init, hist, bad
vars == <<s, S, init, hist, bad>>
Hidden == <<s, S, bad>>          \* VIEW: the history is not part of the state

KEYS == 1..K
P(k) == K + 1 - k
Key(p) == K + 1 - p
Cols == 1..2
Cells == [Cols -> VALS \union {0}]
Blank == IF NEST THEN [c \in Cols |-> 0] ELSE 0
Row(f) == {<<c, f[c]>> : c \in {x \in Cols : f[x] # 0}}
Filled(x) == IF s.fill = <<>> THEN x
             ELSE IF NEST THEN [c \in Cols |-> IF x[c] = 0 THEN s.fill[1] ELSE x[c]]
             ELSE IF x = 0 THEN s.fill[1] ELSE x
Out(x) == IF NEST THEN Row(x) ELSE x
SeqOf(x) == IF NEST THEN SelectSeq([c \in Cols |-> <<c, x[c]>>], LAMBDA q : q[2] # 0) ELSE x
CellsOf(x) == [c \in Cols |-> IF \E i \in 1..Len(x) : x[i][1] = c THEN (CHOOSE y \in VALS : <<c, y>> \in Rng(x)) ELSE 0]
In(x) == IF NEST THEN CellsOf(x) ELSE x

\* the row indicator
NonEmpty(m) == {p \in KEYS : m[p] # Blank}
Rows(t) == IF ~NEST THEN NonEmpty(t.m) ELSE IF t.rows = <<>> THEN NonEmpty(t.m) ELSE t.rows[1]
Asked(t) == IF NEST /\ t.rows = <<>> THEN [t EXCEPT !.rows = <<NonEmpty(t.m)>>] ELSE t
WriteFill(t) ==
  IF t.fill = <<>> THEN t
  ELSE [m |-> [p \in KEYS |-> Filled(t.m[p])], fill |-> <<>>, rows |-> <<>>]
Has(t, k) == k \in KEYS /\ (t.fill # <<>> \/ P(k) \in Rows(t))
Erase(t, p) == [t EXCEPT !.m[p] = Blank, !.rows = IF t.rows = <<>> THEN <<>> ELSE <<t.rows[1] \ {p}>>]
Store(t, p, x) == [t EXCEPT !.m[p] = x, !.rows = IF t.rows = <<>> THEN <<>> ELSE <<t.rows[1] \union {p}>>]
\* a nested mapping writes its fill value out before a row is replaced
SetRow(t, k, x) == Store(IF NEST THEN WriteFill(t) ELSE t, P(k), In(x))

None == [k |-> "none"]
KeyErr == [k |-> "exc", c |-> <<"KeyError">>]
Val(t, k) == [k |-> "val", v |-> SeqOf(Filled(t.m[P(k)]))]
R(t, o) == {[t |-> t, o |-> o]}
AskIf(t) == IF t.fill = <<>> THEN Asked(t) ELSE t

RECURSIVE SetAll(_, _)
SetAll(t, d) == IF d = <<>> THEN t ELSE SetAll(SetRow(t, d[1][1], d[1][2]), Tail(d))

\* what the code does: the set of possible (state, outcome)
Do(t, e) ==
  CASE e.op = "c_set" -> IF e.u \in KEYS THEN R(SetRow(t, e.u, e.x), None) ELSE R(t, KeyErr)
    [] e.op = "c_del" -> IF Has(t, e.u) THEN R(Erase(WriteFill(AskIf(t)), P(e.u)), None) ELSE R(AskIf(t), KeyErr)
    [] e.op = "c_pop" ->
         IF Has(t, e.u) THEN R(Erase(WriteFill(AskIf(t)), P(e.u)), Val(t, e.u))
         ELSE IF e.d = <<>> THEN R(AskIf(t), KeyErr) ELSE R(AskIf(t), [k |-> "dflt"])
    [] e.op = "c_popitem" ->
         LET f == Asked(WriteFill(t)) IN
         IF Rows(f) = {} THEN R(f, KeyErr)
         ELSE {[t |-> Erase(f, p), o |-> [k |-> "items", v |-> <<<<Key(p), SeqOf(f.m[p])>>>>]] : p \in Rows(f)}
    [] e.op = "c_setdefault" ->
         IF e.u \notin KEYS THEN R(t, KeyErr)
         ELSE IF Has(t, e.u) THEN R(AskIf(t), Val(t, e.u))
         ELSE R(SetRow(AskIf(t), e.u, e.x), [k |-> "val", v |-> e.x])
    [] e.op = "c_clear" -> R([m |-> [p \in KEYS |-> Blank], fill |-> <<>>, rows |-> <<>>], None)
    [] e.op = "c_update" -> R(SetAll(t, e.d), None)
    [] e.op = "c_in" -> R(AskIf(t), [k |-> "bool", v |-> Has(t, e.u)])
    [] e.op = "c_len" -> R(AskIf(t), [k |-> "int", v |-> IF t.fill # <<>> THEN K ELSE Cardinality(Rows(t))])
    [] e.op = "c_item" -> IF Has(t, e.u) THEN R(AskIf(t), Val(t, e.u)) ELSE R(AskIf(t), KeyErr)
    [] e.op = "c_get" -> IF Has(t, e.u) THEN R(AskIf(t), Val(t, e.u)) ELSE R(AskIf(t), None)

X == IF NEST THEN {<<<<1, v>>>> : v \in VALS} \union {<<<<1, v>>, <<2, v>>>> : v \in VALS} ELSE VALS
Events ==
  {[op |-> "c_set", c |-> 1, u |-> u, x |-> x] : u \in KEYS, x \in X}
  \union {[op |-> "c_setdefault", c |-> 1, u |-> u, x |-> x] : u \in KEYS \union {0}, x \in X}
  \union {[op |-> "c_del", c |-> 1, u |-> u] : u \in KEYS \union {0}}
  \union {[op |-> "c_pop", c |-> 1, u |-> u, d |-> d] : u \in KEYS \union {0}, d \in {<<>>, <<7>>}}
  \union {[op |-> "c_popitem", c |-> 1], [op |-> "c_clear", c |-> 1], [op |-> "c_len", c |-> 1]}
  \union {[op |-> "c_update", c |-> 1, d |-> <<<<u, x>>, <<v, x>>>>] : u \in KEYS, v \in KEYS, x \in X}
  \union {[op |-> "c_in", c |-> 1, u |-> u] : u \in KEYS \union {0}}
  \union {[op |-> "c_item", c |-> 1, u |-> u] : u \in KEYS \union {0}}
  \union {[op |-> "c_get", c |-> 1, u |-> u, d |-> <<>>] : u \in KEYS \union {0}}

AbsMap(t) == IF t.fill # <<>> THEN {<<k, Out(IF NEST THEN [c \in Cols |-> IF t.m[P(k)][c] = 0 THEN t.fill[1] ELSE t.m[P(k)][c]]
                                          ELSE IF t.m[P(k)] = 0 THEN t.fill[1] ELSE t.m[P(k)])>> : k \in KEYS}
          ELSE {<<Key(p), Out(t.m[p])>> : p \in Rows(t)}

Init ==
  /\ \E m \in [KEYS -> IF NEST THEN Cells ELSE VALS \union {0}] : \E f \in FILLS :
       /\ s = [m |-> m, fill |-> f, rows |-> <<>>]
       /\ init = [m |-> [k \in KEYS |-> SeqOf(m[P(k)])], fill |-> f]
  /\ S = AbsMap(s) /\ hist = <<>> /\ bad = ""

Store1 == <<[NewC("map", S, KEYS, NEST) EXCEPT !.S = S]>>
Next ==
  \E e0 \in Events : \E r \in Do(s, e0) :
    LET e == e0 @@ [o |-> r.o] IN
    /\ s' = r.t
    /\ S' = After(Store1, e)
    /\ bad' = ContVerdict(Store1, e)
    /\ hist' = Append(hist, e0)
    /\ UNCHANGED init
    /\ EMIT => PrintT(ToJson([init |-> init, ev |-> hist']))
Spec == Init /\ [][Next]_vars

Accepted == bad = ""
Refines == S = AbsMap(s)
\* the row indicator, where it exists, tells the truth
RowsRight == s.rows # <<>> => s.rows[1] = NonEmpty(s.m)
VALS_2 == {1, 2}
VALS_1 == {1}
FILLS_2 == {<<>>, <<2>>}
=============================================================================
