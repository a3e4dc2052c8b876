------------------------------ MODULE ObjectsTrace ------------------------------
(***************************************************************************)
(* r.first: the scene at first; r.hist: questions with e.scene, the scene  *)
(* afterwards, and e.out, what was returned (or e.no: it was refused).     *)
(***************************************************************************)
EXTENDS Objects, TraceBase
If(c, x) == IF c THEN {x} ELSE {}
RECURSIVE Walk(_, _, _)
Walk(r, n, s) ==
  IF n > Len(r.hist) THEN {}
  ELSE LET e == r.hist[n]
           a == Ask(s, e.q)
       IN IF a.err THEN If(~Has(e, "no"), "C23.accepted") \cup If(e.scene # s, "C23.scene") \cup Walk(r, n + 1, s)
          ELSE IF Has(e, "no") THEN {"C23.refused"}
          ELSE (IF ToString(e.out) = ToString(a.out) THEN {} ELSE {"C23." \o e.q.op})
               \cup (IF e.scene # a.scene THEN {"C23.scene"} ELSE Walk(r, n + 1, a.scene))
Fails(r) == IF Has(r, "err") THEN {"ANY.raised"} ELSE Walk(r, 1, r.first)
VARIABLES chunk, pos
TraceInit == chunk \in 1..NChunks /\ pos = ChunkLo(chunk) /\ scene = <<>> /\ asked = <<>>
TraceNext == /\ pos <= ChunkHi(chunk)
             /\ Say(Recs[pos], Fails(Recs[pos]))
             /\ IF pos = ChunkHi(chunk) THEN SayChunk(chunk) ELSE TRUE
             /\ pos' = pos + 1 /\ chunk' = chunk /\ UNCHANGED <<scene, asked>>
TraceSpec == TraceInit /\ [][TraceNext]_<<chunk, pos, scene, asked>>
=============================================================================
