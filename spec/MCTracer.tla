------------------------------ MODULE MCTracer ------------------------------
EXTENDS Tracer
(* Horizontal, vertical and diagonal walls, including a degenerate one. *)
MCWalls == { <<0, 0, 4, 0>>, <<0, 4, 4, 4>>, <<4, 0, 4, 3>>, <<0, 1, 3, 4>>, <<2, 1, 2, 3>>, <<1, 3, 3, 1>>, <<3, 2, 3, 2>> }
MCSpots == { <<1, 1>>, <<3, 1>>, <<1, 2>>, <<2, 3>>, <<0, 2>> }
MCFewWalls == { <<0, 0, 4, 0>>, <<0, 4, 4, 4>>, <<4, 0, 4, 3>>, <<0, 1, 3, 4>>, <<2, 1, 2, 3>> }
MCFewSpots == { <<1, 1>>, <<3, 1>>, <<1, 2>>, <<2, 3>> }
=============================================================================
