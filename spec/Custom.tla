-------------------------------- MODULE Custom --------------------------------
(***************************************************************************)
(* Objects of a user's own.  All that tracing may know of an object is its *)
(* interface: how many parameters its points have, the point of given      *)
(* parameters, the parameters of a point, whether these are on the object, *)
(* whether the object is in the way of a ray, how well a bounce obeys it.  *)
(*                                                                         *)
(* The objects used, besides walls ("W") and vertices ("V"):               *)
(*  "D"  a disk: two parameters, any point of the square around it, good   *)
(*       if it is inside; in the way if it touches; best at the centre     *)
(*  "S"  a slab: two parameters, transparent; best halfway                 *)
(*  "B"  a bow, part of a parabola: one parameter; in the way everywhere   *)
(*       or nowhere; best when short                                       *)
(* r.objs: [k, v]: W: ends; V: place; D: centre, radius; S: corner, sides; *)
(*  B: start, direction d, sag k (the bow is a + t d + t^2 k d'), blocking *)
(***************************************************************************)
EXTENDS Truth

Arity(o) == CASE o.k \in {"D", "S"} -> 2 [] o.k \in {"W", "B"} -> 1 [] OTHER -> 0
AsWall(o) == IF o.k = "W" THEN [k |-> "W", a |-> Pt(o.v[1], o.v[2]), b |-> Pt(o.v[3], o.v[4])]
             ELSE [k |-> "V", a |-> Pt(o.v[1], o.v[2]), b |-> Pt(o.v[1], o.v[2])]
Fix(o) == Pt(o.v[1], o.v[2])
Sag(o) == Pt(-o.v[5] * o.v[4], o.v[5] * o.v[3])

(* The point of the parameters s (a sequence of rationals). *)
PointOf(o, s) ==
  CASE o.k = "W" -> VAdd(AsWall(o).a, VScale(s[1], Dir(AsWall(o))))
    [] o.k = "V" -> Fix(o)
    [] o.k = "D" -> LET c(x) == RMul(I2R(o.v[3]), RSub(RMul(I2R(2), x), ROne)) IN VAdd(Fix(o), <<c(s[1]), c(s[2])>>)
    [] o.k = "S" -> VAdd(Fix(o), <<RMul(I2R(o.v[3]), s[1]), RMul(I2R(o.v[4]), s[2])>>)
    [] o.k = "B" -> VAdd(Fix(o), VAdd(VScale(s[1], Pt(o.v[3], o.v[4])), VScale(RMul(s[1], s[1]), Sag(o))))
Even(o, t) == [i \in 1..Arity(o) |-> t]

(* Margins of "these parameters are on the object". *)
Unit(s) == RMin(s, RSub(ROne, s))
HoldM(o, s) ==
  CASE o.k \in {"W", "B"} -> Unit(s[1])
    [] o.k = "V" -> INF
    [] o.k = "S" -> RMin(Unit(s[1]), Unit(s[2]))
    [] o.k = "D" -> RSub(I2R(o.v[3] * o.v[3]), Norm2(VSub(PointOf(o, s), Fix(o))))

(* Squared distance from the point c to the segment p q. *)
Dist2(c, p, q) ==
  LET d == VSub(q, p)
      e == VSub(c, p)
      s == Dot(e, d)
      n == Norm2(d)
  IN IF s[1] <= 0 THEN Norm2(e)
     ELSE IF RLe(n, s) THEN Norm2(VSub(c, q))
     ELSE LET x == Cross(d, e) IN RMul(x, RDiv(x, n))
(* Margins of "in the way", with whether they are firm. *)
WayM(o, p, q, patch) ==
  CASE o.k = "W" -> Block(AsWall(o), p, q, patch)
    [] o.k \in {"V", "S"} -> [m |-> NINF, firm |-> TRUE]
    [] o.k = "B" -> [m |-> I2R(o.v[6]), firm |-> TRUE]
    [] o.k = "D" -> LET b == RMul(I2R(o.v[3]), RAdd(ROne, patch)) IN [m |-> Bounded(RSub(RMul(b, b), Dist2(Fix(o), p, q))), firm |-> TRUE]

(* How well the bounce a b c obeys the object (0: perfectly). *)
Bounce(o, a, b, c) ==
  CASE o.k = "D" -> Norm2(VSub(b, Fix(o)))
    [] o.k = "S" -> Norm2(VSub(VScale(I2R(2), b), VAdd(a, c)))
    [] o.k = "B" -> RAdd(Norm2(VSub(b, a)), Norm2(VSub(c, b)))
    [] o.k = "V" -> RZero
    [] o.k = "W" -> RZero           \* not asked for (square roots)
RECURSIVE Bounces(_, _, _)
Bounces(os, ps, i) == IF i > Len(os) THEN RZero ELSE RAdd(Bounce(os[i], ps[i], ps[i + 1], ps[i + 2]), Bounces(os, ps, i + 1))

Chosen(objs, c) == [i \in 1..Len(c) |-> objs[c[i] + 1]]
Along(os, t, tx, rx) == <<tx>> \o [i \in 1..Len(os) |-> PointOf(os[i], Even(os[i], t))] \o <<rx>>

(* The verdict on the path ps over the candidate c, as an interval. *)
VerdictM(objs, c, ps, ss, patch, lossM) ==
  LET tests == { WayM(objs[x[2]], ps[x[1]], ps[x[1] + 1], patch) :
                   x \in { y \in (1..(Len(ps) - 1)) \X (1..Len(objs)) : ~Exempt(c, y[1], y[2]) } }
      firm == { RNeg(t.m) : t \in { u \in tests : u.firm } }
      on == { HoldM(objs[c[i] + 1], ss[i]) : i \in 1..Len(c) }
      hi == MinOf(firm \cup on, RMin(INF, lossM))
  IN <<IF \A t \in tests : t.firm \/ RLt(t.m, <<-1, 10>>) THEN hi ELSE NINF, hi>>

(* Where the bounces of a sequence of slabs, disks and vertices are all    *)
(* perfect: disks at their centres, vertices where they are, and slabs     *)
(* evenly between.                                                         *)
Pinned(o) == o.k \in {"D", "V"}
Anchors(os) == {0, Len(os) + 1} \cup { i \in 1..Len(os) : Pinned(os[i]) }
AnchorAt(os, i, tx, rx) == IF i = 0 THEN tx ELSE IF i > Len(os) THEN rx ELSE Fix(os[i])
MaxIn(S) == CHOOSE x \in S : \A y \in S : y <= x
MinIn(S) == CHOOSE x \in S : \A y \in S : x <= y
PerfectAt(os, i, tx, rx) ==
  IF Pinned(os[i]) THEN Fix(os[i])
  ELSE LET l == MaxIn({ j \in Anchors(os) : j < i }) h == MinIn({ j \in Anchors(os) : j > i })
           a == AnchorAt(os, l, tx, rx) b == AnchorAt(os, h, tx, rx)
       IN VAdd(a, VScale(Rat(i - l, h - l), VSub(b, a)))
Perfect(os, tx, rx) == <<tx>> \o [i \in 1..Len(os) |-> PerfectAt(os, i, tx, rx)] \o <<rx>>

(* Shortest: disks and slabs may be met anywhere (their parameters are not *)
(* bounded), vertices only where they are.                                 *)
Fixed(os) == <<0>> \o SelectSeq([i \in 1..Len(os) |-> i], LAMBDA i : os[i].k = "V") \o <<Len(os) + 1>>
Taut(os, tx, rx) == LET f == Fixed(os) IN [i \in 1..Len(f) |-> AnchorAt(os, f[i], tx, rx)]
=============================================================================
