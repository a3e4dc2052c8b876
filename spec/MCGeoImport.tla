------------------------------ MODULE MCGeoImport ------------------------------
EXTENDS GeoImport
CONSTANTS MaxFeatures, Size
Ps == { Pt(x, y) : x \in 0..Size, y \in 0..Size }
Rings == UNION { [1..n -> Ps] : n \in 0..2 } \cup { <<Pt(0, 0), Pt(1, 0), Pt(1, 1), Pt(0, 0)>> }
Feats == { [t |-> "Polygon", rings |-> <<r>>] : r \in Rings }
         \cup { [t |-> "Polygon", rings |-> <<>>], [t |-> "Point", rings |-> <<>>],
                [t |-> "MultiPolygon", rings |-> <<<<Pt(0, 1)>>>>],
                [t |-> "Polygon", rings |-> <<<<Pt(1, 1), Pt(0, 1)>>, <<Pt(0, 0), Pt(1, 1)>>>>] }
MCDocs == UNION { [1..n -> Feats] : n \in 0..MaxFeatures }
MCLocs == {"NW", "SE", "C", "N"}
=============================================================================
