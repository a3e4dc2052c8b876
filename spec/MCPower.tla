------------------------------- MODULE MCPower -------------------------------
(* The received power while a path gets longer, interaction by interaction. *)
EXTENDS Shapes
CONSTANTS MaxLen, MaxOrder
VARIABLES len, n, coef, height
vars == <<len, n, coef, height>>
Init == /\ len = 0 /\ n = 0
        /\ coef \in {RZero, <<1, 4>>, <<1, 2>>, ROne} /\ height \in {<<1, 10>>, <<1, 2>>, ROne}
Longer == len < MaxLen /\ len' = len + 1 /\ UNCHANGED <<n, coef, height>>
Bounce == n < MaxOrder /\ n' = n + 1 /\ UNCHANGED <<len, coef, height>>
Next == Longer \/ Bounce
Spec == Init /\ [][Next]_vars
P(k, c, h, l) == Power(k, c, h, I2R(l))
Positive == RLe(RZero, P(n, coef, height, len))
Finite == P(n, coef, height, len)[2] > 0
Monotone == [][RLe(P(n', coef, height, len'), P(n, coef, height, len))
               /\ (n' = n /\ coef # RZero => RLt(P(n', coef, height, len'), P(n, coef, height, len)))]_vars
=============================================================================
