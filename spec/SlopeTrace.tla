------------------------------ MODULE SlopeTrace ------------------------------
(* Decides recorded derivatives (kind "slope": of results with respect to  *)
(* the numbers of a scene; kind "gslope": over a grid of positions).       *)
EXTENDS Slope, TraceBase

Pre(r) == IF r.kind = "gslope" THEN "C08." ELSE "C25."
Fails(r) ==
  IF Has(r, "err") THEN {"ANY.raised"}
  ELSE IF r.finite = 0 THEN {Pre(r) \o "not_finite"}
  ELSE IF r.spot = 0 /\ ~IsDerivative(r.z, r.g, r.noise) THEN {Pre(r) \o "not_the_derivative"}
  ELSE {}

VARIABLES chunk, pos
TraceInit == chunk \in 1..NChunks /\ pos = ChunkLo(chunk)
TraceNext == /\ pos <= ChunkHi(chunk)
             /\ Say(Recs[pos], Fails(Recs[pos]))
             /\ IF pos = ChunkHi(chunk) THEN SayChunk(chunk) ELSE TRUE
             /\ pos' = pos + 1 /\ chunk' = chunk
TraceSpec == TraceInit /\ [][TraceNext]_<<chunk, pos>>
=============================================================================
