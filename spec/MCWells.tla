-------------------------------- MODULE MCWells --------------------------------
EXTENDS Wells
W(c, d) == [c |-> <<c>>, d |-> d]
MCFields == { <<W(0, 100000), W(1000000, 0)>>, <<W(250000, 0), W(-500000, 300000), W(900000, 50000)>>, <<W(500000, 0)>> }
MCStarts == { <<x * 125000>> : x \in 0..8 }
=============================================================================
