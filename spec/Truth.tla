-------------------------------- MODULE Truth --------------------------------
(***************************************************************************)
(* A recorded truth value against a margin known up to an interval.        *)
(*   o.b  1 when it is a boolean      o.v  its value, 10^-4 units          *)
(*   o.i  inverse of the sigmoid (10^-4 units of margin), clipped to o.sat *)
(* opt.approx, opt.alpha = [num, den], opt.fn in {"hard", "sig"}           *)
(***************************************************************************)
EXTENDS Tracing

EpsT == <<1, 5000>>
LoT(m) == RSub(m[1], EpsT)
HiT(m) == RAdd(m[2], EpsT)
MOf(x) == IF x.firm \/ RLt(x.m, <<-1, 10>>) THEN <<x.m, x.m>> ELSE <<NINF, INF>>
AlphaOf(opt) == Rat(opt.alpha[1], opt.alpha[2])

TruthFails(o, m, opt) ==
  IF opt.approx = 0
  THEN (IF o.b # 1 THEN {"not_boolean"} ELSE {}) \cup
       (IF o.v \notin {0, 10000} THEN {"not_a_truth_value"} ELSE {}) \cup
       (IF o.v = 10000 /\ RLt(HiT(m), RZero) THEN {"true_but_should_not"} ELSE {}) \cup
       (IF o.v = 0 /\ RLt(RZero, LoT(m)) THEN {"false_but_should_not"} ELSE {})
  ELSE (IF o.b # 0 THEN {"boolean_when_smoothed"} ELSE {}) \cup
       (IF o.v < 0 \/ o.v > 10000 THEN {"out_of_range"}
        ELSE IF opt.fn = "hard"
        THEN (IF o.v + 40 < (IF m[1] = NINF THEN 0 ELSE Scaled(HardSig(AlphaOf(opt), LoT(m)), 4)) THEN {"too_low"} ELSE {}) \cup
             (IF o.v - 40 > Scaled(HardSig(AlphaOf(opt), HiT(m)), 4) + 1 THEN {"too_high"} ELSE {})
        ELSE (IF o.i < o.sat /\ m[1] # NINF /\ o.i + 20 + Abs(o.i) \div 100 < Scaled(LoT(m), 4) THEN {"too_low"} ELSE {}) \cup
             (IF o.i > -o.sat /\ o.i - 20 - Abs(o.i) \div 100 > Scaled(HiT(m), 4) + 1 THEN {"too_high"} ELSE {}))

(* On exact inputs, with no smoothing, the margin itself decides. *)
ExactFails(o, m) ==
  IF o.v = 0 /\ RLe(RZero, m) THEN {"boundary_false"}
  ELSE IF o.v # 0 /\ RLt(m, RZero) THEN {"boundary_true"} ELSE {}
=============================================================================
