------------------------------- MODULE MCCustom -------------------------------
(***************************************************************************)
(* The verdict on a path over objects known by their answers only: every   *)
(* table of answers.  hold[i]: is point i on its object; way[s][j]: is     *)
(* object j in the way of segment s; good: is the loss small enough.  The  *)
(* machine asks one thing at a time, the way an implementation would.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, Order, Middle
Answers == {-1, 1} \cup (IF Middle THEN {0} ELSE {})
Best == 9
Worst == -9
VARIABLES cand, hold, way, good, phase, i, j, contains, hits, out
vars == <<cand, hold, way, good, phase, i, j, contains, hits, out>>

Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a < b THEN b ELSE a
Cands == { c \in UNION { [1..n -> 1..N] : n \in 0..Order } : \A k \in 1..(Len(c) - 1) : c[k] # c[k + 1] }
Own(c, s, k) == (s > 1 /\ c[s - 1] = k) \/ (s <= Len(c) /\ c[s] = k)
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y

(* Declared: the least of all conditions. *)
Asked(c, n) == { x \in (1..(Len(c) + 1)) \X (1..n) : ~Own(c, x[1], x[2]) }
Verdict(c, h, w, g, n) == MinSet({g, Best} \cup { h[k] : k \in 1..Len(c) } \cup { -w[x[1]][x[2]] : x \in Asked(c, n) })

Init == /\ cand \in Cands /\ hold \in [1..Len(cand) -> Answers] /\ good \in Answers
        /\ way \in [1..(Len(cand) + 1) -> [1..N -> Answers]]
        /\ phase = "on" /\ i = 1 /\ j = 1 /\ contains = Best /\ hits = Worst /\ out = 0
OnObject == phase = "on" /\ (IF i > Len(cand) THEN phase' = "way" /\ i' = 1 /\ UNCHANGED contains
                             ELSE contains' = Least(contains, hold[i]) /\ i' = i + 1 /\ UNCHANGED phase)
            /\ UNCHANGED <<cand, hold, way, good, j, hits, out>>
InTheWay == phase = "way" /\ i <= Len(cand) + 1
            /\ hits' = (IF Own(cand, i, j) THEN hits ELSE Most(hits, way[i][j]))
            /\ (IF j = N THEN i' = i + 1 /\ j' = 1 ELSE i' = i /\ j' = j + 1)
            /\ UNCHANGED <<cand, hold, way, good, phase, contains, out>>
Conclude == phase = "way" /\ i > Len(cand) + 1 /\ phase' = "done"
            /\ out' = Least(Least(contains, -hits), good)
            /\ UNCHANGED <<cand, hold, way, good, i, j, contains, hits>>
Next == OnObject \/ InTheWay \/ Conclude
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == phase = "done"
Declared == Done => out = Verdict(cand, hold, way, good, N)
(* True exactly when every condition is: the crisp verdict. *)
Crisp == Done => ((out > 0) <=> (good > 0 /\ (\A k \in 1..Len(cand) : hold[k] > 0) /\ \A x \in Asked(cand, N) : way[x[1]][x[2]] < 0))
(* An object never is in the way of the segments that end on it. *)
OwnNeverBlocks == Done => LET w == [s \in 1..(Len(cand) + 1) |-> [k \in 1..N |-> IF Own(cand, s, k) THEN Best ELSE way[s][k]]]
                          IN out = Verdict(cand, hold, w, good, N)
(* Without the last object the verdict is at least as good. *)
FewerNeverWorse == Done /\ (\A k \in 1..Len(cand) : cand[k] # N) => Verdict(cand, hold, way, good, N - 1) >= out
Concludes == <>Done
=============================================================================
