------------------------------- MODULE ChunkModel -------------------------------
(***************************************************************************)
(* L2: cutting n rows into chunks.  partition(c, n) hands out consecutive  *)
(* slices; evenly spread when c does not divide n.  Every row is handed    *)
(* out exactly once, in order, no slice is longer than c, none is empty.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN
VARIABLES n, c, even, i, pos, out
vars == <<n, c, even, i, pos, out>>
Ceil(a, b) == (a + b - 1) \div b
K == Ceil(n, c)
Whole == c <= 0 \/ c >= n
Cut(j) == IF even /\ K * c # n THEN Ceil(n * j, K) ELSE IF c * j < n THEN c * j ELSE n
Init == n \in 0..MaxN /\ c \in 0..(MaxN + 1) /\ even \in BOOLEAN /\ i = 0 /\ pos = 0 /\ out = <<>>
Next == /\ n > 0 /\ pos < n
        /\ LET stop == IF Whole THEN n ELSE Cut(i + 1) IN
           /\ i' = i + 1 /\ pos' = stop
           /\ out' = IF stop > pos THEN Append(out, <<pos, stop>>) ELSE out
        /\ UNCHANGED <<n, c, even>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Cover == /\ \A j \in 1..Len(out) : out[j][1] < out[j][2] /\ (j > 1 => out[j][1] = out[j - 1][2])
         /\ Len(out) > 0 => out[1][1] = 0 /\ out[Len(out)][2] = pos
Bounded == ~Whole => \A j \in 1..Len(out) : out[j][2] - out[j][1] <= c
Fewest == (pos = n /\ n > 0) => Len(out) = (IF Whole THEN 1 ELSE K)
Terminates == <>(pos = n)
=============================================================================
