------------------------------- MODULE Lattice -------------------------------
(***************************************************************************)
(* Exact plane geometry of ray tracing, over rationals.                    *)
(*                                                                         *)
(* Point  = <<x, y>>, both rationals.                                      *)
(* Object = [k |-> "W", a |-> Point, b |-> Point]      a wall (mirror)     *)
(*        | [k |-> "V", a |-> Point, b |-> Point]      a vertex (a = b)    *)
(*                                                                         *)
(* A "margin" is a signed distance to a decision boundary: the decision is *)
(* TRUE iff the margin is positive (or zero, for the inclusive ones).      *)
(* INF stands for a margin that is far from the boundary, or infinite.     *)
(***************************************************************************)
EXTENDS Rat

INF == <<10, 1>>
NINF == <<-10, 1>>
Bounded(m) == RClip(m, NINF, INF)

Pt(x, y) == <<I2R(x), I2R(y)>>
VSub(p, q) == <<RSub(p[1], q[1]), RSub(p[2], q[2])>>
VAdd(p, q) == <<RAdd(p[1], q[1]), RAdd(p[2], q[2])>>
VScale(s, p) == <<RMul(s, p[1]), RMul(s, p[2])>>
Dot(p, q) == RAdd(RMul(p[1], q[1]), RMul(p[2], q[2]))
Cross(p, q) == RSub(RMul(p[1], q[2]), RMul(p[2], q[1]))
Norm2(p) == Dot(p, p)
L1(p) == RAdd(RAbs(p[1]), RAbs(p[2]))
(* |sin| of the angle between p and q is certainly above eps (the 1-norm   *)
(* bounds the 2-norm, and keeps the numbers small).                        *)
SinAbove(p, q, eps) ==
  LET a == L1(p) b == L1(q)
  IN a[1] # 0 /\ b[1] # 0 /\ RLt(eps, RDiv(RDiv(RAbs(Cross(p, q)), a), b))

Dir(w) == VSub(w.b, w.a)
Nrm(w) == LET t == Dir(w) IN <<t[2], RNeg(t[1])>>     \* not normalised

IsWall(o) == o.k = "W"
ZeroLen(o) == o.a = o.b

-----------------------------------------------------------------------------
(* Specular reflection. *)

ImageOf(w, p) ==
  IF ZeroLen(w) THEN p
  ELSE LET m == Nrm(w)
       IN VSub(p, VScale(RDiv(RMul(I2R(2), Dot(VSub(p, w.a), m)), Norm2(m)), m))

(* The image chain: Images(ws, p)[i] is p reflected by ws[1], ..., ws[i]. *)
RECURSIVE ImagesAcc(_, _, _)
ImagesAcc(ws, p, acc) ==
  IF ws = <<>> THEN acc
  ELSE LET q == ImageOf(Head(ws), p) IN ImagesAcc(Tail(ws), q, Append(acc, q))
Images(ws, p) == ImagesAcc(ws, p, <<>>)

(* Where the line from p to the image im crosses the line of wall w.       *)
(* When it does not (parallel), the point stays where it is.               *)
BackPoint(w, im, p) ==
  LET m == Nrm(w)
      u == VSub(p, im)
      un == Dot(u, m)
      vn == Dot(VSub(w.a, p), m)
  IN IF un[1] = 0 THEN p ELSE VAdd(p, VScale(RDiv(vn, un), u))

BackRegular(w, im, p) ==   \* well away from parallel
  ~ZeroLen(w) /\ SinAbove(VSub(p, im), Dir(w), <<1, 25>>)

RECURSIVE BackAcc(_, _, _, _)
BackAcc(ws, ims, p, acc) ==   \* acc: bounce points found so far, in path order
  IF ws = <<>> THEN acc
  ELSE LET n == Len(ws)
           q == BackPoint(ws[n], ims[n], p)
       IN BackAcc(SubSeq(ws, 1, n - 1), SubSeq(ims, 1, n - 1), q, <<q>> \o acc)

(* The points of the specular path tx -> ws[1] -> ... -> rx. *)
SpecularPoints(ws, tx, rx) == <<tx>> \o BackAcc(ws, Images(ws, tx), rx, <<>>) \o <<rx>>

(* Every bounce is well conditioned and no segment is (nearly) empty. *)
SpecularRegular(ws, ims, pts) ==
  /\ \A i \in 1..Len(ws) : BackRegular(ws[i], ims[i], pts[i + 2])
  /\ \A i \in 1..(Len(pts) - 1) : RLt(<<1, 20>>, L1(VSub(pts[i + 1], pts[i])))

-----------------------------------------------------------------------------
(* Interaction scores.  0: perfect reflection, at most 4. *)

Reflect(w, v) ==
  IF ZeroLen(w) THEN v ELSE
  LET m == Nrm(w) IN VSub(v, VScale(RDiv(RMul(I2R(2), Dot(v, m)), Norm2(m)), m))

Side(w, p) == RSgn(Cross(VSub(p, w.a), Dir(w)))

(* For a point b on the mirror and c on the mirrored line from a: 0 when   *)
(* both ends are on the same side, 4 (= |2|^2) when c is behind the mirror.*)
SpecularScore(w, a, b, c) ==
  IF ~IsWall(w) THEN 0 ELSE IF Side(w, a) * Side(w, c) > 0 THEN 0 ELSE 4

RECURSIVE SumScores(_, _, _)
SumScores(ws, pts, i) ==
  IF i > Len(ws) THEN 0
  ELSE SpecularScore(ws[i], pts[i], pts[i + 1], pts[i + 2]) + SumScores(ws, pts, i + 1)

-----------------------------------------------------------------------------
(* Is the point p, supposedly on the line of the wall, inside the wall?    *)

Param(w, p) == LET t == Dir(w)
               IN IF ZeroLen(w) THEN RZero ELSE RDiv(Dot(VSub(p, w.a), t), Norm2(t))
OnMargin(o, p) ==
  IF ~IsWall(o) THEN INF
  ELSE LET s == Param(o, p) IN Bounded(RMin(s, RSub(ROne, s)))

-----------------------------------------------------------------------------
(* Does wall o, whose two ends are extended by patch * length, block the   *)
(* segment p -> q ?  Both intersection parameters must be in               *)
(* [-HitTol; 1 + HitTol].                                                  *)
(*   m    margin of "blocks"                                               *)
(*   firm FALSE when rounding can decide (nearly parallel and close)       *)

HitTol == <<1, 200>>
InRange(s) == LET c == Bounded(s) IN RMin(RAdd(c, HitTol), RSub(RAdd(ROne, HitTol), c))

Block(o, p, q, patch) ==
  IF ~IsWall(o) \/ ZeroLen(o) \/ p = q THEN [m |-> NINF, firm |-> TRUE]
  ELSE
  LET t == Dir(o)
      a0 == VSub(o.a, VScale(patch, t))
      A == VScale(RAdd(ROne, RMul(I2R(2), patch)), t)    \* extended wall
      C == VSub(p, a0)
      den == Cross(A, VSub(q, p))
      na == Cross(C, VSub(q, a0))    \* a0 + (na/den) A = p + (nb/den) (q - p)
      nb == Cross(C, A)
  IN IF A[1][1] = 0 /\ A[2][1] = 0 THEN [m |-> NINF, firm |-> TRUE]
     ELSE IF den[1] = 0
     THEN IF RLt(<<1, 50>>, RDiv(RAbs(nb), L1(A)))
          THEN [m |-> NINF, firm |-> TRUE]
          ELSE [m |-> RZero, firm |-> FALSE]
     ELSE [m |-> RMin(InRange(RDiv(na, den)), InRange(RDiv(nb, den))),
           firm |-> SinAbove(A, VSub(q, p), <<1, 50>>)]

=============================================================================
