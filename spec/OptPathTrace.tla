------------------------------ MODULE OptPathTrace ------------------------------
(***************************************************************************)
(* One record per path found by minimization, observations in 10^-3        *)
(* lattice units (points) and 10^-4 (loss, scores).                        *)
(*   r.objs[i] = <<kind, x, y (, x2, y2)>>, kind "W", "V", "R"             *)
(*   r.cls     "fermat", "min", "mid"      r.steps, r.starts                 *)
(*   r.pts, r.loss, r.scores (of each object at the points found)          *)
(*   r.again   the same request gave the same bits    r.one  ... and so    *)
(*   did asking for one start explicitly (0/1, -1 when not asked)          *)
(*   r.other   another key gave the same points (steps = 0 only; else -1)  *)
(***************************************************************************)
EXTENDS OptPath, TraceBase

ObjOf(x) == IF x[1] = "V" THEN [k |-> "V", a |-> Pt(x[2], x[3]), b |-> Pt(x[2], x[3])]
            ELSE [k |-> "W", a |-> Pt(x[2], x[3]), b |-> Pt(x[4], x[5])]
Objs(r) == [i \in 1..Len(r.objs) |-> ObjOf(r.objs[i])]
If(c, x) == IF c THEN {x} ELSE {}
Far(v) == v > 40000000 \/ v < -40000000
Near3(v, q, tol) == ~Far(v) /\ Abs(v - Scaled(q, 3)) <= tol
NearPt(p, q, tol) == Near3(p[1], q[1], tol) /\ Near3(p[2], q[2], tol)

(* p (10^-3) on the line of w: integer cross product, coordinates of w are *)
(* integers.                                                               *)
OnLine(w, p) ==
  LET t == Dir(w)
      x == p[1] - 1000 * w.a[1][1]
      y == p[2] - 1000 * w.a[2][1]
      c == x * t[2][1] - y * t[1][1]
  IN Abs(c) <= (5 + (Abs(x) + Abs(y)) \div 20000) * (Abs(t[1][1]) + Abs(t[2][1]))
AtMost(w, p, lo, hi) ==   \* the parameter of p is in lo..hi (10^-2)
  LET t == Dir(w)
      n == t[1][1] * t[1][1] + t[2][1] * t[2][1]
      d == (p[1] - 1000 * w.a[1][1]) * t[1][1] + (p[2] - 1000 * w.a[2][1]) * t[2][1]
  IN d \div n >= 10 * lo - 5 /\ d \div n <= 10 * hi + 5

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)

(* The points of the pieces, one after the other. *)
RECURSIVE Agree(_, _, _, _)
Agree(r, ps, k, i) ==      \* i: index in r.pts of the first end of piece k
  IF k > Len(ps) THEN {}
  ELSE LET pc == ps[k]
           s == IF r.cls = "fermat" THEN Shortest(pc) ELSE Reflected(pc)
           n == Len(pc.ws)
           decided == /\ n > 0 /\ s.ok
                      /\ r.steps >= 300 /\ r.steps <= 400
                      /\ (r.cls = "min" => \A w \in 1..n : r.objs[i + w - 1][1] = "W")
                      /\ (r.cls = "min" => r.loss = 0)
           tol == IF r.cls = "fermat" THEN 15 ELSE 80
       IN If(decided /\ \E w \in 1..n : ~NearPt(r.pts[i + w], s.pts[w + 1], tol), "C18.not_the_optimum") \cup
          Agree(r, ps, k + 1, i + n + 1)

PathFails(r) ==
  LET objs == Objs(r)
      n == Len(objs)
      tx == Pt(r.tx[1], r.tx[2])
      rx == Pt(r.rx[1], r.rx[2])
      open == \E i \in 1..Len(r.pts) : Far(r.pts[i][1]) \/ Far(r.pts[i][2])
      total == SumTo(r.scores, Len(r.scores))
  IN IF Len(r.pts) # n + 2 THEN {"C18.points"}
     ELSE
     If(~NearPt(r.pts[1], tx, 2) \/ ~NearPt(r.pts[n + 2], rx, 2), "C18.ends") \cup
     If(\E i \in 1..n : objs[i].k = "V" /\ ~NearPt(r.pts[i + 1], objs[i].a, 2), "C18.vertex") \cup
     If(~open /\ \E i \in 1..n : objs[i].k = "W" /\ ~ZeroLen(objs[i]) /\ ~OnLine(objs[i], r.pts[i + 1]), "C18.off_the_object") \cup
     If(r.cls # "mid" /\ ~open /\ Abs(r.loss - total) > 4 * n + total \div 1000, "C18.loss") \cup
     If(r.cls = "mid" /\ r.loss # 0, "C18.loss") \cup
     If(n = 0 /\ r.loss # 0, "C18.loss") \cup
     If(r.again # 1, "C18.not_a_function_of_the_key") \cup
     If(r.one = 0, "C18.default_starts") \cup
     If(r.other = 1, "C18.key_ignored") \cup
     If(r.cls = "mid" /\ \E i \in 1..n : ~NearPt(r.pts[i + 1], Midpoint(objs[i]), 2), "C18.middle") \cup
     If(r.cls # "mid" /\ r.steps = 0 /\ \E i \in 1..n : objs[i].k = "W" /\ ~ZeroLen(objs[i]) /\ ~AtMost(objs[i], r.pts[i + 1], 0, 100), "C18.start_outside") \cup
     (IF r.cls = "mid" \/ open THEN {} ELSE Agree(r, Pieces(objs, tx, rx), 1, 1)) \cup
     (* one wall: the least score is 0, and it is reached *)
     (LET p1 == [ws |-> objs, a |-> tx, b |-> rx]
      IN If(r.cls = "min" /\ n = 1 /\ r.objs[1][1] = "W" /\ r.steps >= 300 /\ r.steps <= 400 /\ Reflected(p1).ok /\ ~NearPt(r.pts[2], Reflected(p1).pts[2], 30),
            "C18.not_the_optimum"))

Fails(r) == IF Has(r, "err") THEN {"ANY.raised"} ELSE PathFails(r)

VARIABLES chunk, pos
TraceInit == chunk \in 1..NChunks /\ pos = ChunkLo(chunk) /\ pb = 0 /\ at = 0
TraceNext == /\ pos <= ChunkHi(chunk)
             /\ Say(Recs[pos], Fails(Recs[pos]))
             /\ IF pos = ChunkHi(chunk) THEN SayChunk(chunk) ELSE TRUE
             /\ pos' = pos + 1 /\ UNCHANGED <<chunk, pb, at>>
TraceSpec == TraceInit /\ [][TraceNext]_<<chunk, pos, pb, at>>
=============================================================================
