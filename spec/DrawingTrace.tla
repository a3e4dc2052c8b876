----------------------------- MODULE DrawingTrace -----------------------------
(***************************************************************************)
(* r.scenes (as elements), r.hist: each plot with what it returned (as     *)
(* artists, e.got), places of the returned artists among all artists of    *)
(* the axes (e.at), and the number on each axes afterwards (e.now).        *)
(* e.same: the scene after the plot is what it was.                        *)
(***************************************************************************)
EXTENDS Drawing, TraceBase
If(c, x) == IF c THEN {x} ELSE {}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(p, q) == \A d \in 1..2 : Abs(p[d] - q[d]) <= 2
Expected(r, e) ==
  IF e.t = "scene" THEN Drawn(r.scenes[e.s], e.o)
  ELSE Element(e.elem, IF e.elem.k \in {"P", "V", "M"} /\ e.o.named = 1 THEN e.elem.name ELSE "", e.o.st)
Open(x, y) == x = "?" \/ x = y
Wrong(w, g) ==
  If(w.k # g.k, "C22.kind") \cup
  (IF w.k # g.k THEN {}
   ELSE If(Len(w.pts) # Len(g.pts) \/ \E i \in 1..Len(w.pts) : i <= Len(g.pts) /\ ~Near(w.pts[i], g.pts[i]), "C22.coordinates")
        \cup If(~Open(w.face, g.face) \/ ~Open(w.edge, g.edge), "C22.color")
        \cup If(\E f \in {"marker", "line", "width", "size", "z", "alpha", "label"} : w[f] # g[f], "C22.argument")
        \cup If(w.said # g.said, "C22.positional")
        \cup If(w.text # g.text, "C22.name")
        \cup If(w.k = "text" /\ ~Near(w.off, g.off), "C22.offset"))
RECURSIVE Walk(_, _, _)
Walk(r, n, cnt) ==
  IF n > Len(r.hist) THEN {}
  ELSE LET e == r.hist[n]
           w == Expected(r, e)
           cnt2 == [cnt EXCEPT ![e.a] = @ + Len(w)]
       IN (IF Has(e, "err") THEN {"C22.raised"}
           ELSE (IF Len(w) # Len(e.got) THEN {"C22.number_of_artists"} ELSE UNION { Wrong(w[i], e.got[i]) : i \in 1..Len(w) })
                \cup If(e.at # [i \in 1..Len(e.got) |-> cnt[e.a] + i], "C22.returned_not_drawn")
                \cup If(e.now # cnt2, "C22.left_on_axes")
                \cup If(e.same # 1, "C22.scene_changed"))
          \cup (IF Has(e, "err") THEN {} ELSE Walk(r, n + 1, e.now))
Fails(r) == IF Has(r, "err") THEN {"ANY.raised"} ELSE Walk(r, 1, <<0, 0>>)
VARIABLES chunk, pos
TraceInit == chunk \in 1..NChunks /\ pos = ChunkLo(chunk) /\ Init
TraceNext == /\ pos <= ChunkHi(chunk)
             /\ Say(Recs[pos], Fails(Recs[pos]))
             /\ IF pos = ChunkHi(chunk) THEN SayChunk(chunk) ELSE TRUE
             /\ pos' = pos + 1 /\ chunk' = chunk /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<chunk, pos, vars>>
=============================================================================
