------------------------------- MODULE Tracing -------------------------------
(***************************************************************************)
(* What a traced path and its validity must be, as functions of the scene. *)
(* Tracer.tla computes the same values step by step, in the order of the   *)
(* implementation; TLC checks that the two agree (Tracer!Refines).         *)
(***************************************************************************)
EXTENDS Lattice

Pick(objs, cand) == [i \in 1..Len(cand) |-> objs[cand[i] + 1]]

Midpoint(o) == <<RMul(<<1, 2>>, RAdd(o.a[1], o.b[1])), RMul(<<1, 2>>, RAdd(o.a[2], o.b[2]))>>
MidPoints(ws, tx, rx) == <<tx>> \o [i \in 1..Len(ws) |-> Midpoint(ws[i])] \o <<rx>>

(* An object is on the way of segment i (of n + 1) unless the path bounces *)
(* on it at either end of that segment.                                    *)
Exempt(cand, i, j) ==
  \/ (i - 1 >= 1 /\ cand[i - 1] = j - 1)
  \/ (i <= Len(cand) /\ cand[i] = j - 1)

(* All (segment, object) obstruction tests, as a set of [m, firm]. *)
BlockTests(objs, cand, pts, patch) ==
  { Block(objs[j], pts[i], pts[i + 1], patch) :
      <<i, j>> \in { x \in (1..(Len(pts) - 1)) \X (1..Len(objs)) : ~Exempt(cand, x[1], x[2]) } }

RECURSIVE MinOf(_, _)
MinOf(S, acc) == IF S = {} THEN acc
                 ELSE LET x == CHOOSE x \in S : TRUE IN MinOf(S \ {x}, RMin(x, acc))

OnMargins(objs, cand, pts) == { OnMargin(objs[cand[i] + 1], pts[i + 1]) : i \in 1..Len(cand) }

(* The validity margin, as an interval <<lo, hi>>: the path is valid iff   *)
(* the margin is positive.  lo = NINF when rounding could decide a test.   *)
Margin(objs, cand, pts, patch, lossMargin) ==
  LET tests == BlockTests(objs, cand, pts, patch)
      firm == { RNeg(t.m) : t \in { u \in tests : u.firm } }
      on == OnMargins(objs, cand, pts)
      hi == MinOf(firm \cup on, lossMargin)
      allFirm == \A t \in tests : t.firm \/ RLt(t.m, <<-1, 10>>)
  IN <<IF allFirm THEN hi ELSE NINF, hi>>

(* Smoothing: the hard sigmoid of slope alpha, as an exact function. *)
HardSig(alpha, x) == RClip(RDiv(RAdd(RMul(alpha, x), I2R(3)), I2R(6)), RZero, ROne)
=============================================================================
