--------------------------------- MODULE Wells ---------------------------------
(***************************************************************************)
(* Multi-start minimization of f(x) = min_j |x - c_j|^2 + d_j with steps   *)
(* that halve the distance to the active well.  All in units of 10^-6      *)
(* (integers, one unit of rounding per step).  Starts compete: the one     *)
(* whose final value is the lowest is returned.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Sq(v) == LET w == IF v < 0 THEN -v ELSE v IN (w \div 1000) * (w \div 1000) + (2 * (w \div 1000) * (w % 1000)) \div 1000
Dist2(x, c) == IF Len(x) = 1 THEN Sq(x[1] - c[1]) ELSE Sq(x[1] - c[1]) + Sq(x[2] - c[2])
At(ws, j, x) == Dist2(x, ws[j].c) + ws[j].d
Active(ws, x) == CHOOSE j \in 1..Len(ws) : \A i \in 1..Len(ws) : At(ws, j, x) < At(ws, i, x) \/ (At(ws, j, x) = At(ws, i, x) /\ j <= i)
Value(ws, x) == At(ws, Active(ws, x), x)
(* the wells are so close in value that rounding can choose *)
Tie(ws, x, tol) == \E i, j \in 1..Len(ws) : i # j /\ At(ws, i, x) - Value(ws, x) < tol /\ At(ws, j, x) - Value(ws, x) < tol
Half(x, c) == [i \in 1..Len(x) |-> c[i] + (x[i] - c[i]) \div 2]
Step(ws, x) == Half(x, ws[Active(ws, x)].c)

CONSTANTS Fields, Starts, Many, Steps
VARIABLES ws, xs, k, best
Init == ws \in Fields /\ xs \in [1..Many -> Starts] /\ k = 0 /\ best = 0
Go == k < Steps /\ xs' = [s \in 1..Many |-> Step(ws, xs[s])] /\ k' = k + 1 /\ UNCHANGED <<ws, best>>
Pick == k = Steps /\ best = 0
        /\ best' \in { s \in 1..Many : \A t \in 1..Many : Value(ws, xs[s]) <= Value(ws, xs[t]) }
        /\ UNCHANGED <<ws, xs, k>>
Spec == Init /\ [][Go \/ Pick]_<<ws, xs, k, best>> /\ WF_<<ws, xs, k, best>>(Go \/ Pick)
Best == best # 0 => \A t \in 1..Many : Value(ws, xs[best]) <= Value(ws, xs[t])
Improves == [][\A s \in 1..Many : Value(ws, xs'[s]) <= Value(ws, xs[s])]_<<ws, xs, k, best>>
Picks == <>(best # 0)
=============================================================================
