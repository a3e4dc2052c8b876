--------------------------------- MODULE GenGeo ---------------------------------
(* Random documents, built feature by feature, printed for replay.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Size
VARIABLE hist
Pick1(S) == RandomElement({ x \in S : Len(hist) >= 0 })
RECURSIVE Ps(_)
Ps(n) == IF n = 0 THEN <<>> ELSE <<<<Pick1(0..Size), Pick1(0..Size)>>>> \o Ps(n - 1)
Close(r) == IF r = <<>> \/ Pick1(1..3) = 1 THEN r ELSE Append(r, r[1])
GenRing == Close(Ps(Pick1({1, 2, 3, 3, 4, 4, 5, 6})))
Rings(n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<GenRing>> ELSE <<GenRing, GenRing>>
Other == {"Point", "LineString", "MultiPolygon", "MultiPoint", "GeometryCollection", "null", "none"}
Feat == LET t == IF Pick1(1..4) = 1 THEN Pick1(Other) ELSE "Polygon"
        IN [t |-> t, rings |-> IF t = "Polygon" THEN Rings(Pick1({0, 1, 1, 1, 1, 2})) ELSE <<GenRing>>]
GenInit == hist = <<>>
GenNext == \E f \in {Feat} : hist' = Append(hist, f)
GenSpec == GenInit /\ [][GenNext]_hist
(* every length is printed *)
Dump == Len(hist) <= Depth => PrintT("HIST|" \o ToJson([doc |-> hist]))
=============================================================================
