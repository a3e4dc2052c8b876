-------------------------------- MODULE MCLogic --------------------------------
(* The laws of logic, in every state of the machine over a small grid.      *)
EXTENDS Logic
CONSTANTS Depth
VARIABLE n
MCValues == { <<-1, 2>>, RZero, <<1, 3>>, I2R(4) }
T0 == Cmp("greater_equal", RZero, RZero)
Init == n = 0 /\ reg = [r \in Regs |-> [i \in 1..Width |-> T0]]
Next == /\ n < Depth /\ n' = n + 1
        /\ \E r \in Regs :
             \/ \E op \in Cmps, x \in Values, y \in Values :
                  DoCmp(r, op, [i \in 1..Width |-> x], [i \in 1..Width |-> IF i = 1 THEN y ELSE x])
             \/ \E a \in Regs : DoNot(r, a)
             \/ \E a \in Regs, b \in Regs : DoAnd(r, a, b) \/ DoOr(r, a, b) \/ DoAll(r, <<a, b>>) \/ DoAnyOf(r, <<a, b>>)
Spec == Init /\ [][Next]_<<reg, n>>

V == { reg[r][i] : r \in Regs, i \in 1..Width }
DeMorgan == \A v \in V, w \in V : Not(And(v, w)) = Or(Not(v), Not(w)) /\ Not(Or(v, w)) = And(Not(v), Not(w))
Lattice == \A v \in V, w \in V : And(v, v) = v /\ Or(v, v) = v /\ Not(Not(v)) = v /\
                                 And(v, w) = And(w, v) /\ And(v, Or(v, w)) = v /\ Or(v, And(v, w)) = v
Distributes == \A v \in V, w \in V, u \in V : And(v, Or(w, u)) = Or(And(v, w), And(v, u))
Reductions == \A v \in V, w \in V, u \in V : AllOf(<<v, w, u>>) = AllOf(<<u, v, w>>) /\ Not(AllOf(<<v, w, u>>)) = AnyOf(<<Not(v), Not(w), Not(u)>>)
(* the boolean is the sign of the margin; only a margin of zero is open *)
Agree == \A v \in V : (v.b => RLe(RZero, v.m)) /\ (~v.b => RLe(v.m, RZero))
Range == \A v \in V : LET h == HardSigmoid(I2R(100), v.m)
                      IN RLe(RZero, h) /\ RLe(h, ROne) /\ HardSigmoid(I2R(100), RNeg(v.m)) = RSub(ROne, h)
                         /\ (v.m = RZero => h = <<1, 2>>)
                         /\ (Saturated(I2R(100), v.m) => h = IF v.b THEN ROne ELSE RZero)
Monotone == \A v \in V, w \in V : RLe(v.m, w.m) => RLe(HardSigmoid(<<3, 2>>, v.m), HardSigmoid(<<3, 2>>, w.m))
=============================================================================
