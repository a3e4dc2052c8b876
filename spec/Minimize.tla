------------------------------- MODULE Minimize -------------------------------
(***************************************************************************)
(* Minimization by a fixed number of optimizer steps.                      *)
(*                                                                         *)
(* Objective  f(x) = sum_i a[i] (x[i] - c[i])^2 + l[i] x[i]  + d           *)
(* Optimizer  [name, lr, mu, b]: plain descent, heavy ball (mu), Nesterov  *)
(*   (mu), clipped gradients (at mu), halving the rate after b steps, and  *)
(*   Adam, which moves by lr against the sign of a constant gradient.      *)
(* State of a run: the point x, the memory m of the optimizer, the number  *)
(* k of steps done.                                                        *)
(***************************************************************************)
EXTENDS Rat, TLC

Vec(n, F(_)) == TLCEval([i \in 1..n |-> TLCEval(F(i))])     \* evaluated at once
RECURSIVE SumF(_, _)
SumF(s, n) == IF n = 0 THEN RZero ELSE RAdd(s[n], SumF(s, n - 1))
Value(o, x) ==
  LET n == Len(x)
      t(i) == LET e == RSub(x[i], o.c[i]) IN RAdd(RMul(o.a[i], RMul(e, e)), RMul(o.l[i], x[i]))
  IN RAdd(o.d, SumF(Vec(n, t), n))
Grad(o, x) == LET g(i) == RAdd(RMul(RMul(I2R(2), o.a[i]), RSub(x[i], o.c[i])), o.l[i]) IN Vec(Len(x), g)

(* One step of the optimizer: the update and the new memory. *)
Update(p, g, m, k) ==
  LET n == Len(g)
      mem(i) == IF p.name \in {"heavy", "nesterov"} THEN RAdd(g[i], RMul(p.mu, m[i])) ELSE m[i]
      m2 == Vec(n, mem)
      rate == IF p.name = "halving" /\ k >= p.b THEN RMul(<<1, 2>>, p.lr) ELSE p.lr
      d(i) == CASE p.name = "heavy" -> m2[i]
                [] p.name = "nesterov" -> RAdd(g[i], RMul(p.mu, m2[i]))
                [] p.name = "clip" -> RClip(g[i], RNeg(p.mu), p.mu)
                [] p.name = "adam" -> I2R(RSgn(g[i]))
                [] OTHER -> g[i]
      u(i) == RNeg(RMul(rate, d(i)))
  IN [u |-> Vec(n, u), m |-> m2]
Move(x, u) == LET s(i) == RAdd(x[i], u[i]) IN Vec(Len(x), s)

-----------------------------------------------------------------------------
CONSTANTS Objectives, Optimizers, Starts, Steps
VARIABLES o, p, x, m, k, out
vars == <<o, p, x, m, k, out>>
Init == /\ o \in Objectives /\ p \in Optimizers /\ x \in Starts
        /\ m = Vec(Len(x), LAMBDA i : RZero) /\ k = 0 /\ out = <<>>
Step == /\ k < Steps /\ out = <<>>
        /\ LET r == Update(p, Grad(o, x), m, k) IN x' = Move(x, r.u) /\ m' = r.m
        /\ k' = k + 1 /\ UNCHANGED <<o, p, out>>
Return == k = Steps /\ out = <<>> /\ out' = <<x, Value(o, x)>> /\ UNCHANGED <<o, p, x, m, k>>
Next == Step \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

LossOfResult == out # <<>> => out[2] = Value(o, out[1]) /\ k = Steps
(* descent never climbs a convex quadratic when the rate is small enough *)
Small == \A i \in 1..Len(x) : RLe(RMul(I2R(2), RMul(o.a[i], p.lr)), ROne)
Descends == [][p.name \in {"sgd", "clip", "halving"} /\ Small => RLe(Value(o, x'), Value(o, x))]_vars
(* heavy ball and Nesterov without momentum, clipping that never clips: descent *)
Degenerate == p.mu = RZero /\ p.name \in {"heavy", "nesterov"} =>
                Update(p, Grad(o, x), m, k).u = Update([p EXCEPT !.name = "sgd"], Grad(o, x), m, k).u
Still == \A i \in 1..Len(x) : (Grad(o, x)[i] = RZero /\ m[i] = RZero) => Update(p, Grad(o, x), m, k).u[i] = RZero
Returns == <>(out # <<>>)
=============================================================================
