-------------------------------- MODULE Motion --------------------------------
(***************************************************************************)
(* Laying a scene out differently: turning, mirroring and scaling the      *)
(* plane, listing objects and ends in another order, under other names,    *)
(* or adding things.  What a tracer says must follow along.                *)
(*                                                                         *)
(* A motion is an integer matrix m = <<a, b, c, d>> over den with          *)
(* a^2 + c^2 = b^2 + d^2 = den^2 and a b + c d = 0.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

IsMotion(m, den) == /\ m[1] * m[1] + m[3] * m[3] = den * den
                    /\ m[2] * m[2] + m[4] * m[4] = den * den
                    /\ m[1] * m[2] + m[3] * m[4] = 0
(* Vectors of integers, to the nearest unit below. *)
Turned(m, den, q) == <<(m[1] * q[1] + m[2] * q[2]) \div den, (m[3] * q[1] + m[4] * q[2]) \div den>>

(* Object k (from 0) of the first scene is object move[k + 1] of the other. *)
Moved(move, c) == [i \in 1..Len(c) |-> move[c[i] + 1]]
Renamed(ren, n) == LET k == CHOOSE k \in 1..Len(ren) : ren[k][1] = n IN ren[k][2]
IsRelabeling(move, new, m) ==
  /\ Cardinality({ move[k] : k \in 1..Len(move) }) = Len(move)
  /\ \A k \in 1..Len(move) : move[k] \notin { new[j] : j \in 1..Len(new) }
  /\ { move[k] : k \in 1..Len(move) } \cup { new[j] : j \in 1..Len(new) } = 0..(m - 1)
===============================================================================
