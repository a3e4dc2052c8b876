------------------------------- MODULE MCOptPath -------------------------------
EXTENDS OptPath
Wl(x1, y1, x2, y2) == [k |-> "W", a |-> Pt(x1, y1), b |-> Pt(x2, y2)]
Pc(ws, a, b) == [ws |-> ws, a |-> a, b |-> b]
One == { Pc(<<Wl(0, 0, 8, 0)>>, Pt(x, y), Pt(u, v)) : x \in 1..3, y \in {2, 4}, u \in 5..7, v \in {-3, 1, 3} }
Slanted == { Pc(<<Wl(0, 0, 6, 6)>>, Pt(0, 4), Pt(x, 7)) : x \in {1, 2, 3} }
Two == { Pc(<<Wl(0, 0, 9, 0), Wl(0, 6, 9, 6)>>, Pt(1, y), Pt(8, v)) : y \in {2, 3, 4}, v \in {1, 3, 5} } \cup
       { Pc(<<Wl(0, 0, 9, 0), Wl(9, 0, 9, 9)>>, Pt(x, 4), Pt(5, 7)) : x \in {1, 2} }
All == { q \in One \cup Slanted \cup Two : Shortest(q).ok }
ASSUME Cardinality(All) > 20
=============================================================================
