--------------------------------- MODULE Logic ---------------------------------
(***************************************************************************)
(* Truth values, crisp and smoothed.                                       *)
(*                                                                         *)
(* A smoothed truth value is represented by its margin m, a rational: the  *)
(* value is act(alpha * m) for an activation act that is nondecreasing and *)
(* satisfies act(-x) = 1 - act(x).  A comparison has the signed difference *)
(* of its operands as margin; "and" is min, "or" is max, "not" is minus.   *)
(* A crisp truth value is a boolean.  Cmp gives both.                      *)
(***************************************************************************)
EXTENDS Rat

Cmps == {"greater", "greater_equal", "less", "less_equal"}
CmpMargin(op, x, y) == IF op \in {"greater", "greater_equal"} THEN RSub(x, y) ELSE RSub(y, x)
CmpCrisp(op, x, y) == CASE op = "greater" -> RLt(y, x)
                        [] op = "greater_equal" -> RLe(y, x)
                        [] op = "less" -> RLt(x, y)
                        [] op = "less_equal" -> RLe(x, y)

(* v = [m |-> margin, b |-> boolean] *)
Cmp(op, x, y) == [m |-> CmpMargin(op, x, y), b |-> CmpCrisp(op, x, y)]
Not(v) == [m |-> RNeg(v.m), b |-> ~v.b]
And(v, w) == [m |-> RMin(v.m, w.m), b |-> v.b /\ w.b]
Or(v, w) == [m |-> RMax(v.m, w.m), b |-> v.b \/ w.b]
RECURSIVE AllOf(_)
AllOf(vs) == IF Len(vs) = 1 THEN vs[1] ELSE And(vs[1], AllOf(Tail(vs)))
RECURSIVE AnyOf(_)
AnyOf(vs) == IF Len(vs) = 1 THEN vs[1] ELSE Or(vs[1], AnyOf(Tail(vs)))

HardSigmoid(alpha, m) == RClip(RDiv(RAdd(RMul(alpha, m), I2R(3)), I2R(6)), RZero, ROne)
LinearClip(alpha, m) == RClip(RAdd(RDiv(RMul(alpha, m), I2R(10)), <<1, 2>>), RZero, ROne)
(* Far enough from the transition, smoothed and crisp agree. *)
Saturated(alpha, m) == RLe(I2R(3), RAbs(RMul(alpha, m)))

-----------------------------------------------------------------------------
(* A machine with a few registers, each a vector of truth values.          *)
CONSTANTS Regs, Width, Values
VARIABLE reg

Vec(F(_)) == [i \in 1..Width |-> F(i)]
Put(r, v) == reg' = [reg EXCEPT ![r] = v]
DoCmp(r, op, xs, ys) == LET F(i) == Cmp(op, xs[i], ys[i]) IN Put(r, Vec(F))
DoNot(r, a) == LET F(i) == Not(reg[a][i]) IN Put(r, Vec(F))
DoAnd(r, a, b) == LET F(i) == And(reg[a][i], reg[b][i]) IN Put(r, Vec(F))
DoOr(r, a, b) == LET F(i) == Or(reg[a][i], reg[b][i]) IN Put(r, Vec(F))
(* reductions write the one result everywhere *)
DoAll(r, as) == LET F(i) == AllOf([k \in 1..(Len(as) * Width) |-> reg[as[(k - 1) \div Width + 1]][((k - 1) % Width) + 1]])
                IN Put(r, Vec(F))
DoAny(r, as) == LET F(i) == AnyOf([k \in 1..(Len(as) * Width) |-> reg[as[(k - 1) \div Width + 1]][((k - 1) % Width) + 1]])
                IN Put(r, Vec(F))
(* element-wise over several registers *)
DoAllOf(r, as) == LET F(i) == AllOf([k \in 1..Len(as) |-> reg[as[k]][i]]) IN Put(r, Vec(F))
DoAnyOf(r, as) == LET F(i) == AnyOf([k \in 1..Len(as) |-> reg[as[k]][i]]) IN Put(r, Vec(F))
=============================================================================
