--------------------------- MODULE CandidatesMachine ---------------------------
EXTENDS Candidates, TLC
CONSTANTS MaxObjects, MaxOrder

VARIABLES n, lo, hi, allowed, k, prefix, next, out, pc
vars == <<n, lo, hi, allowed, k, prefix, next, out, pc>>

Init ==
  /\ n \in 0..MaxObjects /\ lo \in 0..MaxOrder /\ hi \in 0..MaxOrder
  /\ allowed \in SUBSET (0..(n - 1))
  /\ k = lo /\ prefix = <<>> /\ next = 0 /\ out = <<>> /\ pc = "walk"

Fixed == <<n, lo, hi, allowed>>

Last(s) == s[Len(s)]

(* One order after the other, from lo to hi. *)
Emit == /\ pc = "walk" /\ k <= hi /\ Len(prefix) = k /\ next # -1
        /\ out' = Append(out, prefix)
        /\ IF prefix = <<>> THEN k' = k + 1 /\ prefix' = <<>> /\ next' = 0
           ELSE k' = k /\ prefix' = SubSeq(prefix, 1, Len(prefix) - 1) /\ next' = Last(prefix) + 1
        /\ UNCHANGED <<Fixed, pc>>
Push == /\ pc = "walk" /\ k <= hi /\ Len(prefix) < k
        /\ next < n
        /\ IF next \in allowed /\ (prefix = <<>> \/ Last(prefix) # next)
           THEN prefix' = Append(prefix, next) /\ next' = 0
           ELSE prefix' = prefix /\ next' = next + 1
        /\ UNCHANGED <<Fixed, k, out, pc>>
Pop == /\ pc = "walk" /\ k <= hi /\ Len(prefix) < k /\ next >= n
       /\ IF prefix = <<>> THEN k' = k + 1 /\ next' = 0 /\ prefix' = <<>>
          ELSE k' = k /\ next' = Last(prefix) + 1 /\ prefix' = SubSeq(prefix, 1, Len(prefix) - 1)
       /\ UNCHANGED <<Fixed, out, pc>>
Finish == pc = "walk" /\ k > hi /\ pc' = "done" /\ UNCHANGED <<Fixed, k, prefix, next, out>>
Next == Emit \/ Push \/ Pop \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Range(s) == { s[i] : i \in 1..Len(s) }
NoDuplicates == \A i, j \in 1..Len(out) : i # j => out[i] # out[j]
Grows == \A i \in 1..(Len(out) - 1) : Len(out[i]) <= Len(out[i + 1])
SoFar == Range(out) \subseteq AllWalks(allowed, lo, hi)
Complete == pc = "done" =>
  /\ Range(out) = AllWalks(allowed, lo, hi)
  /\ Len(out) = NAllWalks(Cardinality(allowed), lo, hi)
Terminates == <>(pc = "done")
=============================================================================
