-------------------------------- MODULE Shapes --------------------------------
(***************************************************************************)
(* Exact local geometry: rigid motions, scores, extents, grids, nearest    *)
(* points, received power.  Everything is a function of rationals.         *)
(***************************************************************************)
EXTENDS Tracing

(* Rotation of p around c by the angle of cosine r[1] and sine r[2]. *)
Rot(r, v) == <<RSub(RMul(r[1], v[1]), RMul(r[2], v[2])), RAdd(RMul(r[2], v[1]), RMul(r[1], v[2]))>>
Rotate(r, c, p) == VAdd(c, Rot(r, VSub(p, c)))
(* What the implementation computes instead (finding C16.rotate): the two  *)
(* points as the rows of a matrix, multiplied from the left.               *)
RowsRotate(r, c, p, q) ==
  LET a == VSub(p, c) b == VSub(q, c)
      mix(k, l, i) == RAdd(RMul(k, a[i]), RMul(l, b[i]))
  IN <<VAdd(c, <<mix(r[1], RNeg(r[2]), 1), mix(r[1], RNeg(r[2]), 2)>>),
       VAdd(c, <<mix(r[2], r[1], 1), mix(r[2], r[1], 2)>>)>>

At(w, s) == VAdd(w.a, VScale(s, Dir(w)))

-----------------------------------------------------------------------------
(* Crossing test of two segments with a given relaxation. *)
InRangeT(s, tol) == LET c == Bounded(s) IN RMin(RAdd(c, tol), RSub(RAdd(ROne, tol), c))
CrossMargin(a, b, p, q, tol) ==
  LET A == VSub(b, a)
      C == VSub(p, a)
      B == VSub(q, p)
      den == Cross(A, B)
      na == Cross(C, VSub(q, a))
      nb == Cross(C, A)
  IN IF a = b \/ p = q THEN [m |-> NINF, firm |-> TRUE]
     ELSE IF den[1] = 0
     THEN IF RLt(<<1, 50>>, RDiv(RAbs(nb), L1(A)))
          THEN [m |-> NINF, firm |-> TRUE]
          ELSE [m |-> RZero, firm |-> FALSE]
     ELSE [m |-> RMin(InRangeT(RDiv(na, den), tol), InRangeT(RDiv(nb, den), tol)),
           firm |-> SinAbove(A, B, <<1, 50>>)]

-----------------------------------------------------------------------------
(* Scores: 2 - 2 cos of the angle between the outgoing direction and the   *)
(* one required.  Cos2 is <<sign, cos^2>>.                                 *)
SignedSquare(num, den2) == <<RSgn(num), RDiv(RMul(num, num), den2)>>
WallCos(w, a, b, c) ==
  LET i == Reflect(w, VSub(b, a))
      o == VSub(c, b)
  IN SignedSquare(Dot(i, o), RMul(Norm2(i), Norm2(o)))
(* phi = <<cos, sin>> of the constant angle. *)
RISCos(w, phi, b, c) ==
  LET v == VSub(b, c)
      n == Nrm(w)
  IN SignedSquare(RAdd(RMul(phi[2], Cross(v, n)), RMul(phi[1], Dot(v, n))), RMul(Norm2(v), Norm2(n)))

ISqrt(n) == CHOOSE k \in 0..n : k * k <= n /\ (k + 1) * (k + 1) > n
IsSquare(n) == \E k \in 0..200 : k * k = n
RIsSquare(q) == q[1] >= 0 /\ q[1] < 40000 /\ q[2] < 40000 /\ IsSquare(q[1]) /\ IsSquare(q[2])
Root(n) == CHOOSE k \in 0..200 : k * k = n
RRoot(q) == <<Root(q[1]), Root(q[2])>>

-----------------------------------------------------------------------------
(* Extents. *)
RECURSIVE BoxOf(_)
BoxOf(ps) ==
  IF Len(ps) = 1 THEN <<ps[1], ps[1]>>
  ELSE LET r == BoxOf(Tail(ps)) p == Head(ps)
       IN <<<<RMin(p[1], r[1][1]), RMin(p[2], r[1][2])>>, <<RMax(p[1], r[2][1]), RMax(p[2], r[2][2])>>>>
Half(a, b) == RMul(<<1, 2>>, RAdd(a, b))
Location(box, l) ==
  LET x == IF l \in {"E", "NE", "SE"} THEN box[2][1]
           ELSE IF l \in {"W", "NW", "SW"} THEN box[1][1] ELSE Half(box[1][1], box[2][1])
      y == IF l \in {"N", "NE", "NW"} THEN box[2][2]
           ELSE IF l \in {"S", "SE", "SW"} THEN box[1][2] ELSE Half(box[1][2], box[2][2])
  IN <<x, y>>
(* Sample k of n between lo and hi. *)
Sample(lo, hi, n, k) == IF n = 1 THEN lo ELSE RAdd(lo, RMul(Rat(k - 1, n - 1), RSub(hi, lo)))

(* The first of the nearest points. *)
Nearest(ps, q) ==
  CHOOSE i \in 1..Len(ps) :
    /\ \A j \in 1..Len(ps) : RLe(Norm2(VSub(ps[i], q)), Norm2(VSub(ps[j], q)))
    /\ \A j \in 1..(i - 1) : RLt(Norm2(VSub(ps[i], q)), Norm2(VSub(ps[j], q)))

-----------------------------------------------------------------------------
RECURSIVE SumLen(_)      \* of segments of rational lengths
SumLen(ps) == IF Len(ps) < 2 THEN RZero
              ELSE RAdd(RRoot(Norm2(VSub(ps[2], ps[1]))), SumLen(Tail(ps)))
Power(n, coef, height, len) ==
  RDiv(RPow(coef, n), RAdd(RMul(height, height), RMul(len, len)))
=============================================================================
