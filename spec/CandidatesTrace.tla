--------------------------- MODULE CandidatesTrace ---------------------------
(* Decides recorded candidate lists: r.out against Candidates!AllWalks.    *)
EXTENDS Candidates, TraceBase

Range(s) == { s[k] : k \in 1..Len(s) }
CandFails(r) ==
  LET allowed == Range(r.allowed)
      got == Range(r.out)
      lens == { Len(r.out[k]) : k \in 1..Len(r.out) }
      \* membership is decided element by element: the full set can be large
      member(s) == /\ Len(s) \in r.lo..r.hi
                   /\ \A k \in 1..Len(s) : s[k] \in allowed
                   /\ \A k \in 1..(Len(s) - 1) : s[k] # s[k + 1]
  IN (IF lens \subseteq r.lo..r.hi THEN {} ELSE {"C01.length"}) \cup
     (IF \E s \in got : Range(s) \ allowed # {} THEN {"C01.excluded_or_unknown_object"} ELSE {}) \cup
     (IF \E s \in got : \E k \in 1..(Len(s) - 1) : s[k] = s[k + 1]
      THEN {"C01.same_object_twice_in_a_row"} ELSE {}) \cup
     (IF Cardinality(got) # Len(r.out) THEN {"C01.duplicate"} ELSE {}) \cup
     \* all members, pairwise different, and as many as there are: all of them
     (IF Cardinality({ s \in got : member(s) }) < NAllWalks(Cardinality(allowed), r.lo, r.hi)
      THEN {"C01.missing"} ELSE {}) \cup
     (IF \E k \in 1..(Len(r.out) - 1) : Len(r.out[k]) > Len(r.out[k + 1])
      THEN {"C01.not_by_increasing_order"} ELSE {})

Fails(r) == IF Has(r, "err") THEN {"ANY.raised"} ELSE CandFails(r)

VARIABLES chunk, pos
TraceInit == chunk \in 1..NChunks /\ pos = ChunkLo(chunk)
TraceNext == /\ pos <= ChunkHi(chunk)
             /\ Say(Recs[pos], Fails(Recs[pos]))
             /\ IF pos = ChunkHi(chunk) THEN SayChunk(chunk) ELSE TRUE
             /\ pos' = pos + 1 /\ chunk' = chunk
TraceSpec == TraceInit /\ [][TraceNext]_<<chunk, pos>>
=============================================================================
