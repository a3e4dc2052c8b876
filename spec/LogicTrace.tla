------------------------------ MODULE LogicTrace ------------------------------
(***************************************************************************)
(* kind "machine": a behaviour of Logic.tla, executed on the real toolbox  *)
(*   in one mode; r.seen[k] is the register written by step k.             *)
(* kind "reduce": all/any of several arrays over some axes.                *)
(* kind "test": is_true / is_false; kind "act": activations; kind "const". *)
(* A smoothed observation is [v, i]: value in 10^-6, its inverse by the    *)
(* sigmoid in 10^-3, clipped to +-8000.  A crisp one has v in {0, 10^6}.   *)
(***************************************************************************)
EXTENDS Logic, TraceBase

Q(x) == Rat(x[1], x[2])
Qs(xs) == [i \in 1..Len(xs) |-> Q(xs[i])]
Million == 1000000

(* One observed truth value against the expected one. *)
Ok(r, o, v) ==
  IF r.approx = 0 THEN o.v = (IF v.b THEN Million ELSE 0)
  ELSE IF r.fn = "hard" THEN Abs(o.v - Scaled(HardSigmoid(Q(r.alpha), v.m), 6)) <= 20
  ELSE IF r.fn = "lin" THEN Abs(o.v - Scaled(LinearClip(Q(r.alpha), v.m), 6)) <= 20
  ELSE /\ o.v >= 0 /\ o.v <= Million
       /\ LET m == Scaled(RMul(Q(r.alpha), v.m), 3)
          IN IF m > 8000 THEN o.i >= 7900 ELSE IF m < -8000 THEN o.i <= -7900
             ELSE Abs(o.i - m) <= 4 + Abs(m) \div 100
KindFails(r, isbool) == IF isbool # 1 - r.approx THEN {"C12.kind"} ELSE {}

Start == [k \in 1..3 |-> [i \in 1..Width |-> [m |-> RZero, b |-> FALSE]]]
Apply(g, e) ==
  LET set(F(_)) == [g EXCEPT ![e.r] = TLCEval([i \in 1..Width |-> TLCEval(F(i))])]
      a == g[e.as[1]]
      b == g[e.as[Len(e.as)]]
      flat == TLCEval([k \in 1..(Len(e.as) * Width) |-> g[e.as[(k - 1) \div Width + 1]][((k - 1) % Width) + 1]])
      fc(i) == Cmp(e.op, Q(e.xs[i]), Q(e.ys[i]))
      fn(i) == Not(a[i])
      fa(i) == And(a[i], b[i])
      fo(i) == Or(a[i], b[i])
      fall(i) == AllOf(flat)
      fany(i) == AnyOf(flat)
      fallof(i) == AllOf(TLCEval([k \in 1..Len(e.as) |-> g[e.as[k]][i]]))
      fanyof(i) == AnyOf(TLCEval([k \in 1..Len(e.as) |-> g[e.as[k]][i]]))
  IN CASE e.op \in Cmps -> set(fc)
       [] e.op = "not" -> set(fn)
       [] e.op = "and" -> set(fa)
       [] e.op = "or" -> set(fo)
       [] e.op = "all" -> set(fall)
       [] e.op = "any" -> set(fany)
       [] e.op = "allof" -> set(fallof)
       [] e.op = "anyof" -> set(fanyof)

RECURSIVE Run(_, _, _)
Run(r, g, k) ==
  IF k > Len(r.hist) THEN {}
  ELSE LET e == r.hist[k]
           h == TLCEval(Apply(g, e))
           s == r.seen[k]
           name == IF e.op \in Cmps THEN "C12.comparison" ELSE IF e.op \in {"not", "and", "or"} THEN "C12.connective" ELSE "C12.reduction"
       IN KindFails(r, s.b) \cup
          (IF Len(s.v) # Width \/ \E i \in 1..Len(s.v) : ~Ok(r, s.v[i], h[e.r][i]) THEN {name} ELSE {}) \cup
          Run(r, h, k + 1)
MachineFails(r) == Run(r, Start, 1)

-----------------------------------------------------------------------------
(* r.xs: margins, flat, of a stack of k arrays of m by n.  r.ax: axes      *)
(* reduced, among 0, 1, 2 (all of them when nothing is asked).             *)
Coord(r, f) == <<(f - 1) \div (r.m * r.n), ((f - 1) \div r.n) % r.m, (f - 1) % r.n>>
Ax(r) == { r.ax[i] : i \in 1..Len(r.ax) }
Keep(r, f) == [d \in 1..3 |-> IF (d - 1) \in Ax(r) THEN 0 ELSE Coord(r, f)[d]]
Size(r) == r.k * r.m * r.n
(* here the elements are truth values themselves, in 1/64 *)
Group(r, f) == { g \in 1..Size(r) : Keep(r, g) = Keep(r, f) }
Least(r, S) == CHOOSE x \in TLCEval({ r.xs[g] : g \in S }) : \A g \in S : x <= r.xs[g]
Most(r, S) == CHOOSE x \in TLCEval({ r.xs[g] : g \in S }) : \A g \in S : x >= r.xs[g]
OutShape(r) == LET d == <<r.k, r.m, r.n>>
                   keep == SelectSeq(<<1, 2, 3>>, LAMBDA i : (i - 1) \notin Ax(r))
               IN [i \in 1..Len(keep) |-> d[keep[i]]]
Firsts(r) == SelectSeq([f \in 1..Size(r) |-> f], LAMBDA f : \A g \in Group(r, f) : f <= g)
Expect(r, f) == LET S == Group(r, f) IN
  IF r.approx = 1 THEN (IF r.op = "all" THEN Least(r, S) ELSE Most(r, S)) * 15625
  ELSE IF (IF r.op = "all" THEN \A g \in S : r.xs[g] # 0 ELSE \E g \in S : r.xs[g] # 0) THEN Million ELSE 0
ReduceFails(r) ==
  LET fs == TLCEval(Firsts(r))
  IN KindFails(r, r.b) \cup
     (IF r.shape # OutShape(r) THEN {"C12.reduction_shape"}
      ELSE IF Len(r.out) # Len(fs) \/ \E i \in 1..Len(fs) : Abs(r.out[i] - Expect(r, fs[i])) > 2 THEN {"C12.reduction"} ELSE {})

(* x and tol in 1/64: exact in floating point *)
TestFails(r) ==
  LET t == IF r.approx = 1 THEN (IF r.op = "is_true" THEN r.x > 64 - r.tol ELSE r.x < r.tol)
           ELSE (IF r.op = "is_true" THEN r.x # 0 ELSE r.x = 0)
  IN (IF r.b # 1 THEN {"C12.test_kind"} ELSE {}) \cup
     (IF r.out # (IF t THEN Million ELSE 0) THEN {"C12.tolerance"} ELSE {})

ActFails(r) ==
  (IF \E k \in 1..Len(r.xs) : ~Ok(r, r.out[k], [m |-> Q(r.xs[k]), b |-> TRUE]) THEN {"C12.activation"} ELSE {}) \cup
  (IF \E k \in 1..Len(r.xs), j \in 1..Len(r.xs) : RLt(Q(r.xs[k]), Q(r.xs[j])) /\ r.out[k].v > r.out[j].v
   THEN {"C12.not_monotone"} ELSE {})
ConstFails(r) == KindFails(r, r.b) \cup (IF r.out # (IF r.op = "true_value" THEN Million ELSE 0) THEN {"C12.constant"} ELSE {})

Fails(r) == IF Has(r, "err") THEN {"ANY.raised"}
            ELSE CASE r.kind = "machine" -> MachineFails(r)
                   [] r.kind = "reduce" -> ReduceFails(r)
                   [] r.kind = "test" -> TestFails(r)
                   [] r.kind = "act" -> ActFails(r)
                   [] r.kind = "const" -> ConstFails(r)

VARIABLES chunk, pos
TraceInit == chunk \in 1..NChunks /\ pos = ChunkLo(chunk) /\ reg = <<>>
TraceNext == /\ pos <= ChunkHi(chunk)
             /\ Say(Recs[pos], Fails(Recs[pos]))
             /\ IF pos = ChunkHi(chunk) THEN SayChunk(chunk) ELSE TRUE
             /\ pos' = pos + 1 /\ chunk' = chunk /\ reg' = reg
TraceSpec == TraceInit /\ [][TraceNext]_<<chunk, pos, reg>>
=============================================================================
