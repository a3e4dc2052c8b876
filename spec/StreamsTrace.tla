----------------------------- MODULE StreamsTrace -----------------------------
(***************************************************************************)
(* r.scenes: the scenes at hand at first; r.hist: what was done.  Every    *)
(* stream is named by its place in the history.  e.cands: the candidates   *)
(* of the request, as listed on opening it (asked separately).  e.got:     *)
(* what a pull (of up to e.n entries) gave; e.over: the stream ended.      *)
(* e.marks, alone: numbers drawn from the random key of the request, while *)
(* pulled and when asked for at once.  e.flag: the smoothing flag in force *)
(* afterwards: only e.t = "flag" changes it (e.th = 2, 3: the pull is made *)
(* in a context of its own that disables, enables smoothing).              *)
(***************************************************************************)
EXTENDS Streams, TraceBase
If(c, x) == IF c THEN {x} ELSE {}
SetOf(q) == { q[i] : i \in 1..Len(q) }
Proper(s, r, cs) == SetOf(cs) = Due(s, r) /\ Len(cs) = Cardinality(Due(s, r)) /\ \A i, j \in 1..Len(cs) : i < j => Len(cs[i]) <= Len(cs[j])
(* at: entries given so far; over: it has ended. *)
Pulled(t, got, over, marks, n) ==
  LET have == Len(t.full) - t.at
      m == IF t.over \/ t.dropped THEN 0 ELSE IF n < have THEN n ELSE have
  IN If(got # SubSeq(t.full, t.at + 1, t.at + m), "C29.yields")
     \cup If(over # (IF n > m THEN 1 ELSE 0), "C29.end")
     \cup If(t.alone # <<>> /\ marks # SubSeq(t.alone, t.at + 1, t.at + m), "C29.randomness")
Moved(t, got, over) == [t EXCEPT !.at = @ + Len(got), !.over = @ \/ over = 1]
RECURSIVE Walk(_, _, _, _, _)
Walk(r, n, scenes, ss, flag) ==
  IF n > Len(r.hist) THEN {}
  ELSE LET e == r.hist[n]
           now2 == IF e.t = "flag" THEN e.x ELSE flag
           go(sc, st) == Walk(r, n + 1, sc, st, now2)
       IN IF Has(e, "err") THEN {"C29.raised"}
          ELSE IF e.flag # now2 THEN {"C29.flag_left_behind"}
          ELSE CASE e.t = "open" ->
                 LET s == scenes[e.s]
                 IN IF ~Proper(s, e.r, e.cands) THEN {"C29.candidates"}
                    ELSE If(e.alone # <<>> /\ Len(e.alone) # Len(Full(s, e.r, e.cands)), "C29.entries")
                         \cup go(scenes, ss @@ (n :> [full |-> Full(s, e.r, e.cands), at |-> 0, over |-> FALSE, dropped |-> FALSE, alone |-> e.alone]))
               [] e.t = "take" ->
                 LET w == Pulled(ss[e.i], e.got, e.over, e.marks, e.n)
                 IN IF w # {} THEN w ELSE go(scenes, [ss EXCEPT ![e.i] = Moved(@, e.got, e.over)])
               [] e.t = "race" ->
                 LET w == Pulled(ss[e.i], e.got, e.over, e.marks, e.n) \cup (IF e.i = e.j THEN {} ELSE Pulled(ss[e.j], e.got2, e.over2, e.marks2, e.n))
                     one == [ss EXCEPT ![e.i] = Moved(@, e.got, e.over)]
                 IN IF w # {} THEN w ELSE go(scenes, IF e.i = e.j THEN one ELSE [one EXCEPT ![e.j] = Moved(@, e.got2, e.over2)])
               [] e.t = "whole" ->
                 LET s == scenes[e.s]
                 IN (IF ~Proper(s, e.r, e.cands) THEN {"C29.candidates"}
                     ELSE LET w == Whole(s, e.r, e.cands)
                              empty == (e.r.kind = "rxgrid" /\ s.tx = <<>>) \/ (e.r.kind = "txgrid" /\ s.rx = <<>>)
                          IN If(~empty /\ e.got # w, "C29.sum")) \cup go(scenes, ss)
               [] e.t = "drop" -> go(scenes, [ss EXCEPT ![e.i].dropped = TRUE])
               [] e.t = "edit" -> go([scenes EXCEPT ![e.s] = Edited(@, [ed |-> e.ed, n |-> e.name, x |-> e.x])], ss)
               [] OTHER -> go(scenes, ss)
Fails(r) == IF Has(r, "err") THEN {"ANY.raised"} ELSE Walk(r, 1, r.scenes, <<>>, 0)
VARIABLES chunk, pos
TraceInit == chunk \in 1..NChunks /\ pos = ChunkLo(chunk) /\ now = 0 /\ streams = <<>> /\ edits = 0
TraceNext == /\ pos <= ChunkHi(chunk)
             /\ Say(Recs[pos], Fails(Recs[pos]))
             /\ IF pos = ChunkHi(chunk) THEN SayChunk(chunk) ELSE TRUE
             /\ pos' = pos + 1 /\ chunk' = chunk /\ UNCHANGED <<now, streams, edits>>
TraceSpec == TraceInit /\ [][TraceNext]_<<chunk, pos, now, streams, edits>>
=============================================================================
