--------------------------------- MODULE Named ---------------------------------
(***************************************************************************)
(* The named scenes: walls as pairs of points, for a ratio q and given or  *)
(* default positions of the transmitter and of the receiver.               *)
(***************************************************************************)
EXTENDS Shapes

P2(a, b, c, d) == <<Rat(a, b), Rat(c, d)>>
Room == << <<Pt(0, 0), Pt(1, 0)>>, <<Pt(1, 0), Pt(1, 1)>>, <<Pt(1, 1), Pt(0, 1)>>, <<Pt(0, 1), Pt(0, 0)>> >>
Inner == << <<P2(2, 5, 0, 1), P2(2, 5, 2, 5)>>, <<P2(2, 5, 2, 5), P2(3, 10, 2, 5)>>, <<P2(1, 10, 2, 5), P2(0, 1, 2, 5)>> >>
Mid == <<1, 2>>
Lo(q) == RSub(Mid, RMul(Mid, q))
Hi(q) == RAdd(Mid, RMul(Mid, q))
Obstacle(q) == LET a == <<Lo(q), Lo(q)>> b == <<Hi(q), Lo(q)>> c == <<Hi(q), Hi(q)>> d == <<Lo(q), Hi(q)>>
               IN << <<a, b>>, <<b, c>>, <<c, d>>, <<d, a>> >>
Divider(q) == << << <<Mid, Lo(q)>>, <<Mid, Hi(q)>> >> >>
Names == {"basic_scene", "square_scene", "square_scene_with_wall", "square_scene_with_obstacle"}
WallsOf(n, q) == CASE n = "basic_scene" -> Room \o Inner
                   [] n = "square_scene" -> Room
                   [] n = "square_scene_with_wall" -> Room \o Divider(q)
                   [] n = "square_scene_with_obstacle" -> Room \o Obstacle(q)
DefaultRatio(n) == IF n = "square_scene_with_wall" THEN <<3, 5>> ELSE <<1, 10>>
DefaultTx(n) == CASE n = "basic_scene" -> P2(1, 10, 1, 10)
                  [] n = "square_scene_with_wall" -> P2(1, 5, 1, 2)
                  [] OTHER -> P2(1, 5, 1, 5)
DefaultRx(n) == CASE n = "basic_scene" -> P2(151, 500, 2147, 10000)
                  [] n = "square_scene_with_wall" -> P2(4, 5, 1, 2)
                  [] OTHER -> P2(1, 2, 3, 5)
(* Same walls, whatever their order and the order of their ends. *)
Unordered(ws) == { { ws[k][1], ws[k][2] } : k \in 1..Len(ws) }
=============================================================================
