------------------------------- MODULE MCMotion -------------------------------
(* The tracer of the specification follows every motion of its scene, and  *)
(* an object that is added can only take validity away.                    *)
EXTENDS Tracing, Motion

CONSTANT N     \* objects
Walls == { <<0, 0, 4, 0>>, <<0, 4, 4, 2>>, <<4, 0, 4, 3>>, <<1, 3, 3, 1>>, <<2, 1, 2, 3>> }
Spots == { <<1, 1>>, <<3, 2>>, <<1, 2>> }
Motions == { <<<<1, 0, 0, 1>>, 1>>, <<<<0, -1, 1, 0>>, 1>>, <<<<-1, 0, 0, -1>>, 1>>, <<<<-1, 0, 0, 1>>, 1>>, <<<<0, 1, 1, 0>>, 1>>,
             <<<<3, -4, 4, 3>>, 5>>, <<<<3, 4, 4, -3>>, 5>> }
Scales == { <<1, 1>>, <<1, 2>>, <<3, 1>> }
Shift == Pt(7, -2)

W(q) == [k |-> "W", a |-> Pt(q[1], q[2]), b |-> Pt(q[3], q[4])]
VARIABLES objs, tx, rx, cand, mo, s, swap, order
vars == <<objs, tx, rx, cand, mo, s, swap, order>>

Put(p) ==
  LET m == mo[1] d == I2R(mo[2])
      x == RDiv(RAdd(RMul(I2R(m[1]), p[1]), RMul(I2R(m[2]), p[2])), d)
      y == RDiv(RAdd(RMul(I2R(m[3]), p[1]), RMul(I2R(m[4]), p[2])), d)
  IN VAdd(VScale(s, <<x, y>>), Shift)
PutObj(o) == IF swap THEN [o EXCEPT !.a = Put(o.b), !.b = Put(o.a)] ELSE [o EXCEPT !.a = Put(o.a), !.b = Put(o.b)]

Init ==
  /\ objs \in { f \in [1..N -> { W(q) : q \in Walls }] : \A i, j \in 1..N : i # j => f[i] # f[j] }
  /\ tx \in { Pt(p[1], p[2]) : p \in Spots } /\ rx \in { Pt(p[1], p[2]) : p \in Spots } /\ tx # rx
  /\ cand \in { <<0>>, <<0, 1>> } 
  /\ mo = <<<<1, 0, 0, 1>>, 1>> /\ s = ROne /\ swap = FALSE /\ order = [i \in 1..N |-> i - 1]
(* One layout change at a time. *)
Next ==
  /\ mo = <<<<1, 0, 0, 1>>, 1>> /\ s = ROne
  /\ mo' \in Motions /\ s' \in Scales /\ swap' \in BOOLEAN
  /\ order' \in { [i \in 1..N |-> i - 1], [i \in 1..N |-> N - i] }
  /\ UNCHANGED <<objs, tx, rx, cand>>
Spec == Init /\ [][Next]_vars

Other == [k \in 1..N |-> PutObj(objs[CHOOSE i \in 1..N : order[i] = k - 1])]
C2 == Moved(order, cand)
Trace(os, c, p, q) == SpecularPoints(Pick(os, c), p, q)
P == Trace(objs, cand, tx, rx)
P2 == Trace(Other, C2, Put(tx), Put(rx))
(* The decisions that no rounding can change. *)
Sure(os, c, ps) == { t.m : t \in { u \in BlockTests(os, c, ps, <<1, 4>>) : u.m # NINF /\ ~(u.m = RZero /\ ~u.firm) } }

Commutes ==
  /\ IsMotion(mo[1], mo[2]) /\ IsRelabeling(order, <<>>, N)
  /\ P2 = [i \in 1..Len(P) |-> Put(P[i])]
  /\ Sure(Other, C2, P2) = Sure(objs, cand, P)
  /\ OnMargins(Other, C2, P2) = OnMargins(objs, cand, P)
  /\ SumScores(Pick(Other, C2), P2, 1) = SumScores(Pick(objs, cand), P, 1)
Monotone ==
  \A k \in 1..N : (\A i \in 1..Len(cand) : cand[i] # k - 1) =>
    LET fewer == SelectSeq([i \in 1..N |-> i], LAMBDA i : i # k)
        os == [i \in 1..(N - 1) |-> objs[fewer[i]]]
        c == [i \in 1..Len(cand) |-> IF cand[i] > k - 1 THEN cand[i] - 1 ELSE cand[i]]
        m1 == Margin(os, c, Trace(os, c, tx, rx), RZero, <<1, 2>>)
        m2 == Margin(objs, cand, P, RZero, <<1, 2>>)
    IN Trace(os, c, tx, rx) = P /\ RLe(m2[2], m1[2]) /\ RLe(m2[1], m1[1])
===============================================================================
