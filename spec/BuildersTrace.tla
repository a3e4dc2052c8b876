----------------------------- MODULE BuildersTrace -----------------------------
(***************************************************************************)
(* kind "geo": an imported document.  r.walls are the imported walls as    *)
(*   <<p, q>>, r.tx and r.rx the [name, p] found; in 10^-3 lattice units.  *)
(* kind "named": a named scene, in 10^-6.                                  *)
(* kind "random": a random scene, coordinates in 2^-23.                    *)
(***************************************************************************)
EXTENDS GeoImport, TraceBase

N == INSTANCE Named

Nr(o, q, tol) == Near(o[1], q[1], 3, tol) /\ Near(o[2], q[2], 3, tol)
Pts(ring) == [k \in 1..Len(ring) |-> Pt(ring[k][1], ring[k][2])]
ToDoc(d) == [k \in 1..Len(d) |-> [t |-> d[k].t, rings |-> [j \in 1..Len(d[k].rings) |-> Pts(d[k].rings[j])]]]
GeoFails(r) ==
  LET e == TLCEval(Expected(ToDoc(r.doc)))
      p == TLCEval(Place(e, r.txloc, r.rxloc))
  IN (IF Len(r.walls) # Len(e) THEN {"C13.count"}
      ELSE IF \E k \in 1..Len(e) : ~(Nr(r.walls[k][1], e[k][1], r.slack) /\ Nr(r.walls[k][2], e[k][2], r.slack)) THEN {"C13.walls"} ELSE {}) \cup
     (IF r.kinds # [k \in 1..Len(e) |-> "Wall"] THEN {"C13.kind"} ELSE {}) \cup
     (IF Len(r.tx) # 1 \/ Len(r.rx) # 1 THEN {"C13.ends"}
      ELSE (IF e = <<>> THEN (IF r.tx[1].raw # <<0, 0>> \/ r.rx[1].raw # <<1000, 1000>> THEN {"C13.default_place"} ELSE {})
            ELSE IF ~Nr(r.tx[1].p, p.tx, r.slack) THEN {"C13.tx_place"} ELSE IF ~Nr(r.rx[1].p, p.rx, r.slack) THEN {"C13.rx_place"} ELSE {}) \cup
           (IF r.tx[1].name # "tx" \/ r.rx[1].name # "rx" THEN {"C13.names"} ELSE {}))

Nm(o, q) == Abs(o[1] - Scaled(q[1], 6)) <= 2 /\ Abs(o[2] - Scaled(q[2], 6)) <= 2
QP(p) == <<Rat(p[1], p[2]), Rat(p[3], p[4])>>
NamedFails(r) ==
  LET q == IF r.ratio = <<>> THEN N!DefaultRatio(r.name) ELSE Rat(r.ratio[1], r.ratio[2])
      e == TLCEval(N!WallsOf(r.name, q))
      same(w, v) == (Nm(w[1], v[1]) /\ Nm(w[2], v[2])) \/ (Nm(w[1], v[2]) /\ Nm(w[2], v[1]))
      tx == IF r.txc = <<>> THEN N!DefaultTx(r.name) ELSE QP(r.txc)
      rx == IF r.rxc = <<>> THEN N!DefaultRx(r.name) ELSE QP(r.rxc)
  IN (IF Len(r.walls) # Len(e) THEN {"C20.count"}
      ELSE IF \/ \E k \in 1..Len(e) : ~\E j \in 1..Len(e) : same(r.walls[j], e[k])
              \/ \E j \in 1..Len(e) : ~\E k \in 1..Len(e) : same(r.walls[j], e[k]) THEN {"C20.walls"} ELSE {}) \cup
     (IF Len(r.tx) # 1 \/ Len(r.rx) # 1 THEN {"C20.ends"}
      ELSE (IF ~Nm(r.tx[1].p, tx) THEN {"C20.tx"} ELSE {}) \cup (IF ~Nm(r.rx[1].p, rx) THEN {"C20.rx"} ELSE {}) \cup
           (IF r.tx[1].name # "tx" \/ r.rx[1].name # "rx" THEN {"C20.names"} ELSE {})) \cup
     (IF r.byname # 1 THEN {"C20.by_name"} ELSE {})

One23 == 8388608
InUnit(p) == p[1] >= 0 /\ p[1] < One23 /\ p[2] >= 0 /\ p[2] < One23
RandomFails(r) ==
  LET pts == [k \in 1..Len(r.tx) |-> r.tx[k].p] \o [k \in 1..Len(r.rx) |-> r.rx[k].p] \o
             [k \in 1..(2 * Len(r.walls)) |-> r.walls[(k + 1) \div 2][2 - (k % 2)]]
      named(s, pre) == \A k \in 1..Len(s) : s[k].name = pre \o ToString(k - 1)
  IN (IF Len(r.tx) # r.n[1] \/ Len(r.walls) # r.n[2] \/ Len(r.rx) # r.n[3] THEN {"C20.counts"} ELSE {}) \cup
     (IF ~named(r.tx, "tx_") \/ ~named(r.rx, "rx_") THEN {"C20.random_names"} ELSE {}) \cup
     (IF \E k \in 1..Len(pts) : ~InUnit(pts[k]) THEN {"C20.range"} ELSE {}) \cup
     (IF Cardinality({ pts[k] : k \in 1..Len(pts) }) # Len(pts) THEN {"C20.samples_shared"} ELSE {}) \cup
     (IF r.again # 1 THEN {"C20.not_a_function_of_the_key"} ELSE {}) \cup
     (IF Len(pts) > 0 /\ r.other # 0 THEN {"C20.key_ignored"} ELSE {})

Fails(r) == IF Has(r, "err") THEN {"ANY.raised"}
            ELSE CASE r.kind = "geo" -> GeoFails(r)
                   [] r.kind = "named" -> NamedFails(r)
                   [] r.kind = "random" -> RandomFails(r)

VARIABLES chunk, pos
tvars == <<chunk, pos, doc, f, i, walls, at>>
TraceInit == chunk \in 1..NChunks /\ pos = ChunkLo(chunk) /\ doc = <<>> /\ f = 0 /\ i = 0 /\ walls = <<>> /\ at = <<>>
TraceNext == /\ pos <= ChunkHi(chunk)
             /\ Say(Recs[pos], Fails(Recs[pos]))
             /\ IF pos = ChunkHi(chunk) THEN SayChunk(chunk) ELSE TRUE
             /\ pos' = pos + 1 /\ UNCHANGED <<chunk, doc, f, i, walls, at>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
