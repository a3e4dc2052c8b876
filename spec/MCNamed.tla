-------------------------------- MODULE MCNamed --------------------------------
(* The layouts have the announced shape: closed rooms and obstacles.        *)
EXTENDS Named
VARIABLES n, q
Init == n \in Names /\ q = <<1, 20>>
Next == RLt(q, ROne) /\ q' = RAdd(q, <<1, 20>>) /\ n' = n
Spec == Init /\ [][Next]_<<n, q>>
Ws == WallsOf(n, q)
Degree(p) == Cardinality({ k \in 1..Len(Ws) : p \in { Ws[k][1], Ws[k][2] } })
Corners == { Ws[k][1] : k \in 1..Len(Ws) } \cup { Ws[k][2] : k \in 1..Len(Ws) }
UnitBox == BoxOf(<<Ws[1][1], Ws[2][1], Ws[3][1], Ws[4][1]>>) = <<Pt(0, 0), Pt(1, 1)>>
Closed == n \in {"square_scene", "square_scene_with_obstacle"} /\ q # ROne => \A p \in Corners : Degree(p) = 2
Inside == \A p \in Corners : \A d \in 1..2 : RLe(RZero, p[d]) /\ RLe(p[d], ROne)
SideIsRatio == n \in {"square_scene_with_wall", "square_scene_with_obstacle"} =>
                 \A k \in 5..Len(Ws) : Norm2(VSub(Ws[k][2], Ws[k][1])) = RMul(q, q)
NoTwin == Cardinality(Unordered(Ws)) = Len(Ws) \/ q = ROne
(* the transmitter and the receiver of the divided scene face each other *)
Faces == n = "square_scene_with_wall" => RLt(DefaultTx(n)[1], Mid) /\ RLt(Mid, DefaultRx(n)[1])
=============================================================================
