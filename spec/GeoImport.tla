------------------------------ MODULE GeoImport ------------------------------
(***************************************************************************)
(* Import of a GeoJSON document, as a machine that reads one position at a *)
(* time.  A document is a sequence of features [t |-> type, rings]; only   *)
(* the outer (first) ring of polygons gives walls: one for each pair of    *)
(* consecutive positions, the pair (last, first) being the first of them.  *)
(***************************************************************************)
EXTENDS Shapes

Types == {"Polygon", "Point", "LineString", "MultiPolygon", "GeometryCollection", "null", "none"}
Ring(f) == IF f.t = "Polygon" /\ f.rings # <<>> THEN f.rings[1] ELSE <<>>
Edge(ring, i) == <<IF i = 1 THEN ring[Len(ring)] ELSE ring[i - 1], ring[i]>>
RingWalls(ring) == [i \in 1..Len(ring) |-> Edge(ring, i)]
RECURSIVE Expected(_)
Expected(doc) == IF doc = <<>> THEN <<>> ELSE RingWalls(Ring(Head(doc))) \o Expected(Tail(doc))
RECURSIVE Ends(_)
Ends(ws) == IF ws = <<>> THEN <<>> ELSE Head(ws) \o Ends(Tail(ws))
Place(ws, tl, rl) ==
  IF ws = <<>> THEN [tx |-> Pt(0, 0), rx |-> Pt(1, 1)]
  ELSE LET b == BoxOf(Ends(ws)) IN [tx |-> Location(b, tl), rx |-> Location(b, rl)]

-----------------------------------------------------------------------------
VARIABLES doc, f, i, walls, at
vars == <<doc, f, i, walls, at>>
CONSTANTS Docs, Locs
Init == doc \in Docs /\ f = 1 /\ i = 1 /\ walls = <<>> /\ at = <<>>
Read == /\ f <= Len(doc) /\ i <= Len(Ring(doc[f]))
        /\ walls' = Append(walls, Edge(Ring(doc[f]), i))
        /\ i' = i + 1 /\ UNCHANGED <<doc, f, at>>
Next1 == /\ f <= Len(doc) /\ i > Len(Ring(doc[f]))
         /\ f' = f + 1 /\ i' = 1 /\ UNCHANGED <<doc, walls, at>>
Finish == /\ f > Len(doc) /\ at = <<>>
          /\ \E tl \in Locs, rl \in Locs : at' = <<Place(walls, tl, rl), tl, rl>>
          /\ UNCHANGED <<doc, f, i, walls>>
Next == Read \/ Next1 \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == at # <<>>
Complete == Done => walls = Expected(doc)
Prefix == \A k \in 1..Len(walls) : walls[k] = Expected(doc)[k]
(* every ring closes: its walls go round *)
RECURSIVE SumDir(_)
SumDir(ws) == IF ws = <<>> THEN Pt(0, 0) ELSE VAdd(VSub(Head(ws)[2], Head(ws)[1]), SumDir(Tail(ws)))
Closes == Done => SumDir(walls) = Pt(0, 0)
Chained == \A k \in 1..Len(walls) : (k > 1 /\ f <= Len(doc) /\ k > Len(walls) - (i - 1) + 1) => walls[k][1] = walls[k - 1][2]
InBox == Done /\ walls # <<>> =>
  LET b == BoxOf(Ends(walls)) IN \A p \in {at[1].tx, at[1].rx} : \A d \in 1..2 : RLe(b[1][d], p[d]) /\ RLe(p[d], b[2][d])
Ends2 == <>Done
=============================================================================
