--------------------------- MODULE SceneEditsTrace ---------------------------
(* r.hist: edits applied to the real scenes; r.seen[k]: what edit k gave;   *)
(* r.final[k]: scene k read again after everything else.                   *)
EXTENDS SceneEdits, TraceBase

RECURSIVE Run(_, _)
Run(ss, h) == IF h = <<>> THEN ss
              ELSE Run(Append(ss, Apply(ss[Head(h).on], Head(h).e)), Tail(h))

SameScene(o, s) == /\ o.tx = s.tx /\ o.rx = s.rx /\ o.objs = s.objs /\ o.tag = s.tag
EditFails(r) ==
  LET want == Run(<<First>>, r.hist)
      n == Len(want)
  IN IF Len(r.seen) # n \/ Len(r.final) # n THEN {"C09.number_of_scenes"}
     ELSE UNION { LET op == r.hist[k - 1].e.op IN
                  IF SameScene(r.seen[k], want[k]) THEN {} ELSE {"C09." \o op} : k \in 2..n } \cup
          (IF \E k \in 1..n : r.seen[k] # r.final[k] THEN {"C09.changed_later"} ELSE {}) \cup
          (IF ~SameScene(r.seen[1], want[1]) THEN {"C09.constructor"} ELSE {}) \cup
          \* reading by name, length and membership agree with iterating
          (IF \E k \in 1..n : r.final[k].bad # "" THEN {"C09.lookup"} ELSE {})
Fails(r) == IF Has(r, "err") THEN {"ANY.raised"} ELSE EditFails(r)

VARIABLES chunk, pos
TraceInit == chunk \in 1..NChunks /\ pos = ChunkLo(chunk) /\ scenes = <<>> /\ hist = <<>>
TraceNext == /\ pos <= ChunkHi(chunk)
             /\ Say(Recs[pos], Fails(Recs[pos]))
             /\ IF pos = ChunkHi(chunk) THEN SayChunk(chunk) ELSE TRUE
             /\ pos' = pos + 1 /\ chunk' = chunk /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<chunk, pos, vars>>
=============================================================================
