-------------------------------- MODULE Tracer --------------------------------
(***************************************************************************)
(* The ray tracer as a state machine, step by step like the implementation:*)
(* forward scan (images), backward scan (bounce points), then the three    *)
(* validity requirements - on the objects, not blocked, small loss - and   *)
(* finally the verdict.                                                    *)
(***************************************************************************)
EXTENDS Tracing, TLC

CONSTANTS WallSet,      \* walls the rooms are made of, <<x1, y1, x2, y2>>
          Spots,        \* where tx and rx may be, <<x, y>>
          NWalls, Order

W(q) == [k |-> "W", a |-> Pt(q[1], q[2]), b |-> Pt(q[3], q[4])]

VARIABLES objs, cand, tx, rx, pc, images, points, on, blocked, score, verdict
vars == <<objs, cand, tx, rx, pc, images, points, on, blocked, score, verdict>>

Cands == { c \in [1..Order -> 0..(NWalls - 1)] :
             \A i \in 1..(Order - 1) : c[i] # c[i + 1] }

Init ==
  /\ objs \in { s \in [1..NWalls -> { W(q) : q \in WallSet }] :
                  \A i, j \in 1..NWalls : i # j => s[i] # s[j] }
  /\ cand \in Cands
  /\ tx \in { Pt(p[1], p[2]) : p \in Spots }
  /\ rx \in { Pt(p[1], p[2]) : p \in Spots }
  /\ pc = "forward" /\ images = <<>> /\ points = <<>>
  /\ on = TRUE /\ blocked = FALSE /\ score = 0 /\ verdict = "none"

ws == Pick(objs, cand)
Cfg == <<objs, cand, tx, rx>>

Forward ==
  /\ pc = "forward"
  /\ IF Len(images) < Len(ws)
     THEN LET from == IF images = <<>> THEN tx ELSE images[Len(images)]
          IN images' = Append(images, ImageOf(ws[Len(images) + 1], from)) /\ pc' = pc
     ELSE pc' = "backward" /\ images' = images
  /\ UNCHANGED <<Cfg, points, on, blocked, score, verdict>>

Backward ==
  /\ pc = "backward"
  /\ IF Len(points) < Len(ws)
     THEN LET k == Len(ws) - Len(points)
              from == IF points = <<>> THEN rx ELSE points[1]
          IN points' = <<BackPoint(ws[k], images[k], from)>> \o points /\ pc' = pc
     ELSE points' = <<tx>> \o points \o <<rx>> /\ pc' = "check"
  /\ UNCHANGED <<Cfg, images, on, blocked, score, verdict>>

CheckOn ==
  /\ pc = "check"
  /\ on' = \A i \in 1..Len(ws) : RLe(RZero, OnMargin(ws[i], points[i + 1]))
  /\ score' = SumScores(ws, points, 1)
  /\ pc' = "block"
  /\ UNCHANGED <<Cfg, images, points, blocked, verdict>>

CheckBlocked ==
  /\ pc = "block"
  /\ blocked' = \E i \in 1..(Len(points) - 1), j \in 1..NWalls :
                  ~Exempt(cand, i, j)
                  /\ RLe(RZero, Block(objs[j], points[i], points[i + 1], RZero).m)
  /\ pc' = "judge"
  /\ UNCHANGED <<Cfg, images, points, on, score, verdict>>

Judge ==
  /\ pc = "judge"
  /\ verdict' = IF on /\ ~blocked /\ score = 0 THEN "valid" ELSE "invalid"
  /\ pc' = "done"
  /\ UNCHANGED <<Cfg, images, points, on, blocked, score>>

Next == Forward \/ Backward \/ CheckOn \/ CheckBlocked \/ Judge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Done == pc = "done"
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Regular == SpecularRegular(ws, images, points)

(* The step machine and the functions used by the trace specs agree. *)
Refines == Done =>
  /\ points = SpecularPoints(ws, tx, rx)
  /\ Regular =>
     LET m == Margin(objs, cand, points, RZero,
                     IF score = 0 THEN <<1, 100>> ELSE I2R(-4))
     IN /\ (RLt(RZero, m[1]) => verdict = "valid")
        /\ (RLt(m[2], RZero) => verdict = "invalid")

(* Reflection law: at every regular bounce the incoming direction, mirrored,*)
(* is parallel to the outgoing one, and the score says whether both ends   *)
(* are on the same side of the mirror.                                     *)
SpecularLaw == (Done /\ Regular) =>
  \A i \in 1..Len(ws) :
    LET a == points[i] b == points[i + 1] c == points[i + 2]
        inc == VSub(b, a) out == VSub(c, b)
        dotR == RSgn(Dot(out, Reflect(ws[i], inc)))
    IN /\ Cross(out, Reflect(ws[i], inc)) = RZero
       /\ Dot(VSub(b, ws[i].a), Nrm(ws[i])) = RZero
       /\ (SpecularScore(ws[i], a, b, c) = 0) <=> (dotR > 0)

(* Seen from the other end, the path is the same, walked backwards. *)
Reciprocal == (Done /\ Regular) =>
  LET rp == SpecularPoints(Rev(ws), rx, tx)
      rims == Images(Rev(ws), rx)
  IN SpecularRegular(Rev(ws), rims, rp) =>
     /\ rp = Rev(points)
     /\ SumScores(Rev(ws), rp, 1) = score
     /\ Margin(objs, Rev(cand), rp, RZero, INF) = Margin(objs, cand, points, RZero, INF)

(* Unfolded length: a path made of true reflections is as long as the      *)
(* straight line from the last image to the receiver.  Checked through the *)
(* vectors: the last bounce lies between them.                             *)
Unfolds == (Done /\ Regular /\ score = 0 /\ Len(ws) >= 1) =>
  LET im == images[Len(ws)]
      b == points[Len(ws) + 1]
      d == VSub(rx, im)
      s == RDiv(Dot(VSub(b, im), d), Norm2(d))
  IN RLe(RZero, s) /\ RLe(s, ROne) /\ Cross(VSub(b, im), d) = RZero

(* A wall through which no segment passes cannot change the verdict:       *)
(* validity depends on the objects only through the three requirements.    *)
Sound == verdict = "valid" => on /\ ~blocked /\ score = 0
Terminates == <>(pc = "done")
=============================================================================
