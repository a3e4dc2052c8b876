------------------------------- MODULE MCSlope -------------------------------
(* The criterion accepts the derivative of every cubic with small          *)
(* coefficients, of their absolute values and of their clipped versions,   *)
(* and rejects any number that is further away than the slack.             *)
EXTENDS Slope

CONSTANT C
Co == (-C)..C
H == 2         \* half a step is one unit of x; positions are multiples of Scale
VARIABLES c, x, shape, d
vars == <<c, x, shape, d>>
Poly(q, t) == q[1] + q[2] * t + q[3] * t * t + q[4] * t * t * t
DPoly(q, t) == q[2] + 2 * q[3] * t + 3 * q[4] * t * t
F(t) == LET v == Poly(c, t)
        IN CASE shape = "poly" -> v [] shape = "abs" -> Mag(v)
             [] shape = "clip" -> IF v < -50 THEN -50 ELSE IF v > 50 THEN 50 ELSE v
DF(t) == LET v == Poly(c, t) s == DPoly(c, t)
         IN CASE shape = "poly" -> s [] shape = "abs" -> (IF v < 0 THEN -s ELSE IF v > 0 THEN s ELSE 0)
              [] shape = "clip" -> IF v < -50 \/ v > 50 THEN 0 ELSE s
Z == <<F(x - H) - F(x), F(x - H \div 2) - F(x), F(x + H \div 2) - F(x), F(x + H) - F(x)>>
Corner == \E t \in (x - H)..(x + H) :
            LET v == Poly(c, t) w == Poly(c, t + 1)
            IN t < x + H /\ ((shape = "abs" /\ ((v < 0) # (w < 0) \/ v = 0 \/ w = 0)) \/
                              (shape = "clip" /\ ((v <= 50) # (w <= 50) \/ (v >= -50) # (w >= -50) \/ Mag(v) = 50 \/ Mag(w) = 50)))

Init == /\ c \in Co \X Co \X Co \X {0, 1} /\ x \in -40..40
        /\ shape \in {"poly", "abs", "clip"} /\ d = 0
Next == d = 0 /\ d' \in {-3, -1, 1, 3} /\ UNCHANGED <<c, x, shape>>
Spec == Init /\ [][Next]_vars
(* d > 0 shifts the derivative away by more than what is tolerated. *)
Claim == LET g == H * DF(x) IN g + d * (Slack(Z, g, 0) + 1)
Accepts == d = 0 /\ ~Corner => IsDerivative(Z, Claim, 0)
Rejects == d # 0 /\ ~Corner /\ Smooth(Z, Claim, 0) /\ Big(Z, H * DF(x)) > 0 =>
             (Mag(d) = 3 => ~Agrees(Z, Claim, 0))
=============================================================================
