-------------------------------- MODULE OptPath --------------------------------
(***************************************************************************)
(* Paths found by minimization (Fermat's principle, least interaction      *)
(* scores): interaction points slide along the lines of their objects and  *)
(* only ever improve the objective.                                        *)
(*                                                                         *)
(* Between two vertices the points are those of an independent problem on  *)
(* walls only (Pieces).  Where the image method has a true reflection path *)
(* inside the walls, it is the one optimum of that problem (Optimum).      *)
(***************************************************************************)
EXTENDS Shapes, TLC

RECURSIVE PiecesAcc(_, _, _, _, _)
PiecesAcc(objs, from, ws, to, acc) ==
  IF objs = <<>> THEN Append(acc, [ws |-> ws, a |-> from, b |-> to])
  ELSE IF Head(objs).k = "V" THEN PiecesAcc(Tail(objs), Head(objs).a, <<>>, to, Append(acc, [ws |-> ws, a |-> from, b |-> Head(objs).a]))
  ELSE PiecesAcc(Tail(objs), from, Append(ws, Head(objs)), to, acc)
Pieces(objs, tx, rx) == PiecesAcc(objs, tx, <<>>, rx, <<>>)

Inside(w, q) == LET m == OnMargin(w, q) IN RLt(<<1, 10>>, m)
LongEnough(ps) == \A i \in 1..(Len(ps) - 1) : RLt(<<4, 5>>, L1(VSub(ps[i + 1], ps[i])))
(* The reflection path of a piece, when it is well conditioned and true.   *)
Reflected(pc) ==
  LET ims == Images(pc.ws, pc.a)
      ps == SpecularPoints(pc.ws, pc.a, pc.b)
  IN [pts |-> ps,
      ok |-> /\ \A i \in 1..Len(pc.ws) : ~ZeroLen(pc.ws[i])
             /\ SpecularRegular(pc.ws, ims, ps)
             /\ LongEnough(ps)
             /\ SumScores(pc.ws, ps, 1) = 0
             /\ \A i \in 1..Len(pc.ws) : Inside(pc.ws[i], ps[i + 1])]
(* One wall with an end on each side of it is crossed straight.            *)
Straight(pc) ==
  LET w == pc.ws[1]
      q == BackPoint(w, pc.a, pc.b)
      ps == <<pc.a, q, pc.b>>
  IN [pts |-> ps, ok |-> ~ZeroLen(w) /\ BackRegular(w, pc.a, pc.b) /\ LongEnough(ps) /\ Side(w, pc.a) * Side(w, pc.b) < 0 /\ Inside(w, q)]
Shortest(pc) ==
  IF pc.ws = <<>> THEN [pts |-> <<pc.a, pc.b>>, ok |-> TRUE]
  ELSE IF Len(pc.ws) = 1 /\ Side(pc.ws[1], pc.a) * Side(pc.ws[1], pc.b) < 0 THEN Straight(pc)
  ELSE Reflected(pc)

-----------------------------------------------------------------------------
(* The machine: every point on one of Grid + 1 places of its wall, moving  *)
(* (alone or together) to neighbouring places as long as this shortens the *)
(* path.                                                                   *)
CONSTANTS Problems, Grid
VARIABLES pb, at

Place(w, i) == VAdd(w.a, VScale(Rat(i, Grid), Dir(w)))
Spots(pc, s) == <<pc.a>> \o [i \in 1..Len(pc.ws) |-> Place(pc.ws[i], s[i])] \o <<pc.b>>
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
Root2(n) == IF n = 0 THEN 0 ELSE Newton(n, n)
Dist(p, q) == LET n == Norm2(VSub(p, q)) IN Root2(Scaled(n, 6))      \* 10^-3
RECURSIVE Total(_)
Total(ps) == IF Len(ps) < 2 THEN 0 ELSE Dist(ps[1], ps[2]) + Total(Tail(ps))
Cost(pc, s) == Total(Spots(pc, s))

Init == pb \in Problems /\ at \in [1..Len(pb.ws) -> 0..Grid]
Near1(s) == { z \in [1..Len(s) -> 0..Grid] : \A i \in 1..Len(s) : z[i] - s[i] \in -1..1 }
Better(pc, s) == LET c == Cost(pc, s) IN { z \in Near1(s) : Cost(pc, z) < c }
Slide == at' \in Better(pb, at) /\ UNCHANGED pb
Spec == Init /\ [][Slide]_<<pb, at>> /\ WF_<<pb, at>>(Slide)

Stuck == Better(pb, at) = {}
(* No local optimum other than the reflection path (within two places).    *)
OnlyOptimum ==
  LET r == Shortest(pb)
  IN r.ok /\ (Stuck => \A i \in 1..Len(pb.ws) :
                RLe(RAbs(RSub(Param(pb.ws[i], r.pts[i + 1]), Rat(at[i], Grid))), Rat(5, 2 * Grid)))
Shortens == [][Cost(pb, at') < Cost(pb, at)]_<<pb, at>>
Settles == <>[][FALSE]_<<pb, at>>
=============================================================================
