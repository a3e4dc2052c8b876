------------------------------ MODULE MotionTrace ------------------------------
(* Decides pairs of traced scenes: kind "motion" (the same scene laid out  *)
(* differently, C26) and kind "extra" (something was added, C27).          *)
(* Points, lengths, losses and verdicts in 10^-6, results in 10^-4 units.  *)
EXTENDS Motion, TraceBase

Mag(x) == IF x < 0 THEN -x ELSE x
Finite(o) == Mag(o) < 2000000000
Small(o) == Mag(o) < 100000000
Alike(x, y, tol, rel) == Finite(x) /\ Finite(y) /\ Mag(x - y) <= tol + Mag(x) \div rel
Pre(r) == IF r.kind = "motion" THEN "C26." ELSE "C27."

Key(e) == <<e.tn, e.rn, e.c>>
Image(r, e) == <<Renamed(r.txren, e.tn), Renamed(r.rxren, e.rn), Moved(r.move, e.c)>>
(* The paths of the second scene that have a counterpart in the first. *)
Old(r, f) == /\ f.tn \in { r.txren[k][2] : k \in 1..Len(r.txren) }
             /\ f.rn \in { r.rxren[k][2] : k \in 1..Len(r.rxren) }
             /\ \A i \in 1..Len(f.c) : f.c[i] \notin { r.new[j] : j \in 1..Len(r.new) }
Uniq(s) == Cardinality({ s[k] : k \in 1..Len(s) }) = Len(s)

PointsAlike(r, p, q) ==
  /\ Len(p) = Len(q)
  /\ \A i \in 1..Len(p) :
       (Small(p[i][1]) /\ Small(p[i][2])) =>
         LET w == Turned(r.m, r.den, p[i])
             big == Mag(p[i][1]) + Mag(p[i][2])
         IN \A d \in 1..2 : Alike(w[d], q[i][d], 100 + big \div 2000, 1000000)

EntryFails(r, e, f) ==
  (IF ~PointsAlike(r, e.p, f.p) THEN {"points"} ELSE {}) \cup
  (IF Small(e.len) /\ ~Alike(e.len, f.len, 200, 1000) THEN {"length"} ELSE {}) \cup
  (IF ~Alike(e.l, f.l, 500, 1000) THEN {"loss"} ELSE {}) \cup
  (IF e.b # f.b THEN {"kind_of_verdict"} ELSE {}) \cup
  (IF r.new = <<>>
   THEN (IF (e.b = 1 /\ e.v # f.v) \/ ~Alike(e.v, f.v, 1000, 100) THEN {"verdict"} ELSE {})
   ELSE (IF f.v > e.v + (IF e.b = 1 THEN 0 ELSE 1000) THEN {"more_valid"} ELSE {}))

PathsFails(r) ==
  LET A == r.a.paths
      B == SelectSeq(r.b.paths, LAMBDA f : Old(r, f))
      ka == [k \in 1..Len(A) |-> Image(r, A[k])]
      kb == [k \in 1..Len(B) |-> Key(B[k])]
      at(x) == CHOOSE j \in 1..Len(B) : kb[j] = x
  IN IF ~Uniq(ka) \/ ~Uniq(kb) \/ { ka[k] : k \in 1..Len(ka) } # { kb[k] : k \in 1..Len(kb) }
     THEN {"entries"}
     ELSE UNION { EntryFails(r, A[k], B[at(ka[k])]) : k \in 1..Len(A) }

(* Results: equal unless an object was added (its own paths are then included). *)
AccFails(r) ==
  LET at(x) == { j \in 1..Len(r.b.acc) : <<r.b.acc[j][1], r.b.acc[j][2]>> = x }
  IN IF \E k \in 1..Len(r.a.acc) :
          LET e == r.a.acc[k]
              js == at(<<Renamed(r.txren, e[1]), Renamed(r.rxren, e[2])>>)
          IN Cardinality(js) # 1 \/
             (r.new = <<>> /\ Small(e[3]) /\ \E j \in js : ~Alike(e[3], r.b.acc[j][3], 100, 500))
     THEN {"result"} ELSE {}

GridFails(r) ==
  LET ren == IF r.side = "rx" THEN r.txren ELSE r.rxren
      at(x) == { j \in 1..Len(r.b.grid) : r.b.grid[j].n = x }
      off(e, f, i) ==
        \/ Small(e.z[i]) /\ ~Alike(e.z[i], f.z[i], 100, 500)
        \/ /\ Small(e.g[i][1]) /\ Small(e.g[i][2])
           /\ LET w == Turned(r.m, r.den, e.g[i])
                  big == Mag(e.g[i][1]) + Mag(e.g[i][2])
              IN \E d \in 1..2 : ~Alike(w[d], f.g[i][d], 200 + big \div 500, 1000000)
  IN IF \E k \in 1..Len(r.a.grid) :
          LET e == r.a.grid[k]
              js == at(Renamed(ren, e.n))
          IN Cardinality(js) # 1 \/
             (r.new = <<>> /\ \E j \in js : Len(r.b.grid[j].z) # Len(e.z) \/
                                \E i \in 1..Len(e.z) : off(e, r.b.grid[j], i))
     THEN {"grid"} ELSE {}

Fails(r) ==
  IF Has(r, "err") THEN {"ANY.raised"}
  ELSE { Pre(r) \o c : c \in (PathsFails(r) \cup AccFails(r) \cup GridFails(r)) }
         \cup (IF IsMotion(r.m, r.den) THEN {} ELSE {"bad_input"})

VARIABLES chunk, pos
TraceInit == chunk \in 1..NChunks /\ pos = ChunkLo(chunk)
TraceNext == /\ pos <= ChunkHi(chunk)
             /\ Say(Recs[pos], Fails(Recs[pos]))
             /\ IF pos = ChunkHi(chunk) THEN SayChunk(chunk) ELSE TRUE
             /\ pos' = pos + 1 /\ chunk' = chunk
TraceSpec == TraceInit /\ [][TraceNext]_<<chunk, pos>>
===============================================================================
