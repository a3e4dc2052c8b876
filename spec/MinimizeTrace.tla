----------------------------- MODULE MinimizeTrace -----------------------------
(***************************************************************************)
(* kind "steps": minimize on a quadratic; r.o, r.p, r.x0 as in Minimize    *)
(*   (rationals as pairs), r.steps; r.x in 10^-6, r.loss in 10^-5.         *)
(* kind "many": multi-start on wells; r.starts are the points at which the *)
(*   objective was evaluated by the same request without any step.         *)
(***************************************************************************)
EXTENDS Minimize, TraceBase

W == INSTANCE Wells WITH Fields <- {}, Starts <- {}, Many <- 0, Steps <- 0, ws <- 0, xs <- 0, k <- 0, best <- 0

Q(v) == Rat(v[1], v[2])
Qs(v) == [i \in 1..Len(v) |-> Q(v[i])]
(* keep denominators small: rounds down to 2^-16 *)
Snap(q) == IF q[2] <= 65536 \/ q[2] % 65536 # 0 THEN q ELSE Rat(q[1] \div (q[2] \div 65536), 65536)
SnapV(v) == Vec(Len(v), LAMBDA i : Snap(v[i]))

RECURSIVE Run(_, _, _, _, _, _)
Run(ob, op, pt, mem, n, last) ==
  IF n = last THEN pt
  ELSE LET u == TLCEval(Update(op, TLCEval(Grad(ob, pt)), mem, n))
       IN Run(ob, op, SnapV(Move(pt, u.u)), SnapV(u.m), n + 1, last)

Times(q, v) == (q[1] * (v \div 10)) \div q[2]      \* 10^-6 to 10^-5
RECURSIVE Loss(_, _, _)
Loss(ob, pt, n) ==
  IF n = 0 THEN Scaled(ob.d, 5)
  ELSE (IF ob.a[n][1] = 0 THEN 0 ELSE Times(ob.a[n], W!Sq(Scaled(RSub(pt[n], ob.c[n]), 6)))) + Times(ob.l[n], Scaled(pt[n], 6)) + Loss(ob, pt, n - 1)

StepsFails(r) ==
  LET ob == [a |-> Qs(r.o.a), c |-> Qs(r.o.c), l |-> Qs(r.o.l), d |-> Q(r.o.d)]
      op == [name |-> r.p.name, lr |-> Q(r.p.lr), mu |-> Q(r.p.mu), b |-> r.p.b]
      z(i) == RZero
      e == TLCEval(Run(ob, op, Qs(r.x0), Vec(Len(r.x0), z), 0, r.steps))
      v == Loss(ob, e, Len(e))
      adam == IF op.name = "adam" THEN (40 * r.steps * op.lr[1]) \div op.lr[2] ELSE 0    \* its bias correction is inexact
  IN (IF Len(r.x) # Len(e) \/ \E i \in 1..Len(e) : Abs(r.x[i] - Scaled(e[i], 6)) > 30 + 17 * Min2(r.steps, 12) + adam THEN {"C15.point"} ELSE {}) \cup
     (IF Abs(r.loss - v) > 60 + adam + Abs(v) \div 2000 THEN {"C15.loss"} ELSE {}) \cup
     (IF r.shape # <<>> THEN {"C15.shape"} ELSE {})

RECURSIVE Descend(_, _, _)
Descend(wells, pt, n) == IF n = 0 THEN pt ELSE Descend(wells, TLCEval(W!Step(wells, pt)), n - 1)
RECURSIVE Ambiguous(_, _, _)
Ambiguous(wells, pt, n) == W!Tie(wells, pt, 300) \/ (n > 0 /\ Ambiguous(wells, TLCEval(W!Step(wells, pt)), n - 1))
ManyFails(r) ==
  LET n == Len(r.starts)
      ends == TLCEval([s \in 1..n |-> Descend(r.ws, r.starts[s], r.steps)])
      vals == TLCEval([s \in 1..n |-> W!Value(r.ws, ends[s])])
      open == \E s \in 1..n : Ambiguous(r.ws, r.starts[s], r.steps)
      low == CHOOSE v \in { vals[s] : s \in 1..n } : \A s \in 1..n : v <= vals[s]
      close(p1, p2) == \A i \in 1..Len(p1) : Abs(p1[i] - p2[i]) <= 20
  IN (IF n # r.n THEN {"C15.starts"} ELSE {}) \cup
     (IF \E s \in 1..n, i \in 1..Len(r.x) : r.starts[s][i] < 0 \/ r.starts[s][i] > 1000000 THEN {"C15.start_range"} ELSE {}) \cup
     (IF open \/ n # r.n THEN {} ELSE
        (IF Abs(r.loss - low) > 60 THEN {"C15.not_best"} ELSE {}) \cup
        (IF ~\E s \in 1..n : vals[s] <= low + 60 /\ close(ends[s], r.x) THEN {"C15.best_point"} ELSE {})) \cup
     (IF ~W!Tie(r.ws, r.x, 300) /\ Abs(r.loss - W!Value(r.ws, r.x)) > 60 THEN {"C15.loss_elsewhere"} ELSE {}) \cup
     (IF r.again # 1 THEN {"C15.not_a_function_of_the_key"} ELSE {}) \cup
     (IF r.other # 0 THEN {"C15.key_ignored"} ELSE {})

Fails(r) == IF Has(r, "err") THEN {"ANY.raised"}
            ELSE CASE r.kind = "steps" -> StepsFails(r)
                   [] r.kind = "many" -> ManyFails(r)

VARIABLES chunk, pos
TraceInit == chunk \in 1..NChunks /\ pos = ChunkLo(chunk) /\ o = 0 /\ p = 0 /\ x = 0 /\ m = 0 /\ k = 0 /\ out = 0
TraceNext == /\ pos <= ChunkHi(chunk)
             /\ Say(Recs[pos], Fails(Recs[pos]))
             /\ IF pos = ChunkHi(chunk) THEN SayChunk(chunk) ELSE TRUE
             /\ pos' = pos + 1 /\ UNCHANGED <<chunk, o, p, x, m, k, out>>
TraceSpec == TraceInit /\ [][TraceNext]_<<chunk, pos, o, p, x, m, k, out>>
=============================================================================
