----------------------------- MODULE ShapesTrace -----------------------------
(***************************************************************************)
(* Decides records of the objects' own geometry.  Coordinates are lattice  *)
(* units, observations integers scaled by 10^3 unless said otherwise.      *)
(***************************************************************************)
EXTENDS Shapes, Truth, TraceBase

P2(x) == Pt(x[1], x[2])
Q(x) == Rat(x[1], x[2])
Finite(o) == o < 2100000000
Close(o, a, tol) == LET e == Scaled(a, 3) IN Finite(o) /\ Abs(o - e) <= tol + Abs(e) \div 2000
PtClose(o, p, tol) == Close(o[1], p[1], tol) /\ Close(o[2], p[2], tol)
WallOf(x) == [k |-> "W", a |-> Pt(x[1], x[2]), b |-> Pt(x[3], x[4])]
Tag(pre, S) == { pre \o x : x \in S }
If(c, x) == IF c THEN {x} ELSE {}

-----------------------------------------------------------------------------
(* kind = "wall" *)
WallFails(r) ==
  LET w == WallOf(r.w)
      t == Dir(w)
      z == ZeroLen(w)
      n == r.normal                       \* 10^-4
      dotn == RAdd(RMul(I2R(n[1]), t[1]), RMul(I2R(n[2]), t[2]))
      nn == (n[1] * n[1]) \div 10000 + (n[2] * n[2]) \div 10000
      probe(i) == r.probes[i]
      one(b) ==
        LET p == P2(b.p)
            s == Param(w, p)
        IN If(~PtClose(b.image, ImageOf(w, p), 4), "C16.image") \cup
           If(~PtClose(b.twice, p, 6), "C16.image_twice") \cup
           If(~PtClose(b.same, ImageOf(w, p), 4), "C16.image_of_swapped") \cup
           If(~z /\ ~Close(b.param, s, 4), "C16.to_parametric") \cup
           If(z /\ ~Finite(b.param), "C16.undefined") \cup
           If(~z /\ ~PtClose(b.proj, At(w, s), 6), "C16.projection") \cup
           (IF z THEN {} ELSE Tag("C16.contains_", TruthFails(b.inside, <<OnMargin(w, p), OnMargin(w, p)>>, r.opt)))
  IN If(~PtClose(r.origin, w.a, 2), "C16.origin") \cup
     If(~PtClose(r.dest, w.b, 2), "C16.dest") \cup
     If(~PtClose(r.t, t, 3), "C16.direction") \cup
     If(r.count # 1, "C16.parameters_count") \cup
     If(~(Finite(n[1]) /\ Finite(n[2])), "C16.undefined") \cup
     (IF z \/ ~(Finite(n[1]) /\ Finite(n[2])) THEN {}
      ELSE If(Abs(nn - 10000) > 20, "C16.normal_not_unit") \cup
           If(RLt(RMul(I2R(15), L1(t)), RAbs(dotn)), "C16.normal_not_perpendicular")) \cup
     If(r.vkinds # <<"Vertex", "Vertex">>, "C16.vertices") \cup
     If(~PtClose(r.v1, w.a, 2) \/ ~PtClose(r.v2, w.b, 2), "C16.vertices") \cup
     UNION { If(~PtClose(r.at[i].p, At(w, Q(r.at[i].s)), 4), "C16.from_parametric") \cup
             If(~z /\ ~Close(r.at[i].back, Q(r.at[i].s), 4), "C16.parametric_round_trip") \cup
             LET mm == RMin(Q(r.at[i].s), RSub(ROne, Q(r.at[i].s)))
             IN Tag("C16.contains_", TruthFails(r.at[i].inside, <<mm, mm>>, r.opt) \cup
                                     (IF r.opt.approx = 0 THEN ExactFails(r.at[i].inside, mm) ELSE {}))
             : i \in 1..Len(r.at) } \cup
     UNION { one(r.probes[i]) : i \in 1..Len(r.probes) } \cup
     (LET s == r.sample
          p == <<Rat(s[1], 1000), Rat(s[2], 1000)>>
          u == IF z THEN RZero ELSE Param(w, p)
      IN IF ~(Finite(s[1]) /\ Finite(s[2])) \/ Abs(s[1]) > 60000 \/ Abs(s[2]) > 60000 THEN {"C16.sample"}
         ELSE IF z THEN If(~PtClose(s, w.a, 3), "C16.sample")
         ELSE If(RLt(u, <<-1, 100>>) \/ RLt(<<101, 100>>, u) \/ ~PtClose(s, At(w, u), 5), "C16.sample"))

(* kind = "vertex" *)
VertexFails(r) ==
  If(r.count # 0, "C16.vertex_parameters") \cup
  If(r.size # 0, "C16.vertex_parameters") \cup
  If(~PtClose(r.at, P2(r.p), 2), "C16.vertex_point") \cup
  If(r.inside.v # 10000 \/ r.inside.b # 1 - r.opt.approx, "C16.vertex_contains") \cup
  If(r.cross.v # 0 \/ r.cross.b # 1 - r.opt.approx, "C16.vertex_crossed") \cup
  If(~PtClose(r.sample, P2(r.p), 2), "C16.vertex_point")

(* kind = "cross": the test of two segments, and of a wall and a ray. *)
CrossFails(r) ==
  LET a == P2(r.s[1]) b == P2(r.s[2]) c == P2(r.s[3]) d == P2(r.s[4])
      x == CrossMargin(a, b, c, d, Q(r.tol))
      y == Block([k |-> "W", a |-> a, b |-> b], c, d, Q(r.patch))
      exact(m) == r.exact = 1 /\ m.firm /\ r.opt.approx = 0
  IN Tag("C16.segments_", TruthFails(r.seg, MOf(x), r.opt)) \cup
     Tag("C16.segments_swapped_", TruthFails(r.swap, MOf(x), r.opt)) \cup
     Tag("C16.wall_crossed_", TruthFails(r.wall, MOf(y), r.opt))

-----------------------------------------------------------------------------
(* kind = "moves": a ray carried along; r.seen[k] is <<a, b, image of 0>>. *)
Centre(e) == P2(e.c)
Expect(e, a, b) ==
  CASE e.op = "rotate" -> <<Rotate(<<Q(e.cos), Q(e.sin)>>, Centre(e), a), Rotate(<<Q(e.cos), Q(e.sin)>>, Centre(e), b)>>
    [] e.op = "mirror" -> <<ImageOf(WallOf(e.w), a), ImageOf(WallOf(e.w), b)>>
    [] e.op = "swap" -> <<b, a>>
RECURSIVE MovesFrom(_, _, _, _)
MovesFrom(r, a, b, k) ==
  IF k > Len(r.moves) THEN {}
  ELSE LET e == r.moves[k]
           x == Expect(e, a, b)
           o == r.seen[k]
           fits(y) == PtClose(o[1], y[1], 8) /\ PtClose(o[2], y[2], 8)
           rows == RowsRotate(<<Q(e.cos), Q(e.sin)>>, Centre(e), a, b)
       IN IF fits(x) THEN MovesFrom(r, x[1], x[2], k + 1)
          ELSE IF e.op = "rotate" /\ Q(e.sin)[1] # 0 /\ fits(rows)
          THEN {"KNOWN.C16.rotate"} \cup MovesFrom(r, rows[1], rows[2], k + 1)
          ELSE {IF e.op = "rotate" THEN "C16.rotate" ELSE IF e.op = "mirror" THEN "C16.image" ELSE "C16.ends"}
MovesFails(r) ==
  MovesFrom(r, Pt(r.w[1], r.w[2]), Pt(r.w[3], r.w[4]), 1) \cup
  If(r.type # r.cls, "C16.rotate_type") \cup
  If(r.phi # r.phi0, "C16.rotate_data")

-----------------------------------------------------------------------------
(* kind = "score": observations in 10^-4. *)
ScoreOk(o, c) ==      \* c = <<sign, cos^2>>; the score is 2 - 2 cos
  IF ~Finite(o) \/ o < -2 \/ o > 40010 THEN FALSE
  ELSE IF RIsSquare(c[2])
  THEN LET e == RMul(I2R(2), RSub(ROne, RMul(I2R(c[1]), RRoot(c[2]))))
       IN Abs(o - Scaled(e, 4)) <= 6
  ELSE LET k == 20000 - o                       \* cos, in 1/20000
           k2 == (k * k) \div 400               \* cos^2, 10^-6
           e == Scaled(c[2], 6)
       IN Abs(k2 - e) <= 600 /\ (e < 4000 \/ (k > 0 /\ c[1] > 0) \/ (k < 0 /\ c[1] < 0))
ScoreFails(r) ==
  LET w == WallOf(r.w)
      a == P2(r.p[1]) b == P2(r.p[2]) c == P2(r.p[3])
      open == ZeroLen(w) \/ a = b \/ b = c
      ris == r.cls = "RIS"
      k == IF ris THEN RISCos(w, <<Q(r.phi[1]), Q(r.phi[2])>>, b, c) ELSE WallCos(w, a, b, c)
      bad(o) == ~Finite(o) \/ o < 0
  IN If(bad(r.score) \/ bad(r.swapped), "C17.negative_or_undefined") \cup
     If(\E i \in 1..Len(r.scaled) : bad(r.scaled[i]), "C17.negative_or_undefined") \cup
     (IF r.cls = "Vertex" THEN If(r.score # 0, "C17.vertex")
      ELSE IF ris /\ a = b /\ ~ZeroLen(w) /\ b # c
      THEN If(~ScoreOk(r.score, k), "C17.ris_score")
      ELSE IF open THEN {}
      ELSE If(~ScoreOk(r.score, k), IF ris THEN "C17.ris_score" ELSE "C17.wall_score") \cup
           If(~ris /\ ~ScoreOk(r.swapped, k), "C17.depends_on_ends") \cup
           If(\E i \in 1..Len(r.scaled) : Abs(r.scaled[i] - r.score) > 4, "C17.depends_on_lengths"))

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
(* kind = "loss": the loss of a path and the scores of its interactions. *)
LossFails(r) ==
  If(~Finite(r.loss) \/ \E i \in 1..Len(r.scores) : ~Finite(r.scores[i]), "C17.loss_undefined") \cup
  If(Len(r.scores) # r.n, "C17.number_of_scores") \cup
  If(Finite(r.loss) /\ Abs(r.loss - Total(r.scores)) > 5 + Len(r.scores) + r.loss \div 500, "C17.loss_is_not_the_sum")

-----------------------------------------------------------------------------
(* kind = "power": value scaled by 10^k. *)
PowerFails(r) ==
  LET ps == [i \in 1..Len(r.p) |-> P2(r.p[i])]
      len == RMul(Q(r.per), SumLen(ps))        \* length in real units
      v == Power(Len(ps) - 2, Q(r.coef), Q(r.height), len)
      undef == Q(r.height)[1] = 0 /\ len[1] = 0
      \* spread of a relative error of 2^-19 in the length and the sums
      ok(o) == Finite(o) /\ Abs(o - Scaled(v, r.k)) <= 2 + Scaled(v, r.k) \div 20000
  IN IF undef THEN {}
     ELSE If(\E i \in 1..Len(r.out) : ~Finite(r.out[i]), "C19.not_finite") \cup
          If(~ok(r.out[1]), "C19.value") \cup
          If(\E i \in 1..Len(r.scaled) : ~ok(r.scaled[i]), "C19.other_units") \cup
          If(\E i \in 2..Len(r.out) : ~ok(r.out[i]), "C19.depends_on_something_else")

-----------------------------------------------------------------------------
(* kind = "extent": r.ps all coordinates of the thing. *)
ExtentFails(r) ==
  LET box == BoxOf([i \in 1..Len(r.ps) |-> P2(r.ps[i])])
      g == r.grid
      cell(i, j) == <<Sample(box[1][1], box[2][1], g.m, j), Sample(box[1][2], box[2][2], g.n, i)>>
  IN If(~PtClose(r.box[1], box[1], 1) \/ ~PtClose(r.box[2], box[2], 1), "C14.box") \cup
     If(~PtClose(r.center, Location(box, "C"), 2), "C14.center") \cup
     If(\E i \in 1..Len(r.locs) : ~PtClose(r.locs[i].p, Location(box, r.locs[i].l), 2), "C14.location") \cup
     (IF g.shape # <<g.n, g.m, g.n, g.m>> THEN {"C14.grid_shape"}
      ELSE If(\E i \in 1..g.n, j \in 1..g.m : ~PtClose(<<g.X[i][j], g.Y[i][j]>>, cell(i, j), 3), "C14.grid"))

(* kind = "nearest" *)
NearestFails(r) ==
  LET ps == [i \in 1..Len(r.ps) |-> P2(r.ps[i])]
      i == Nearest(ps, P2(r.q))
      d2 == Norm2(VSub(ps[i], P2(r.q)))
      within(lo, hi, per) == RLe(Rat(lo * lo, per * per), d2) /\ RLe(d2, Rat(hi * hi, per * per))
      ok(d) == Finite(d) /\ d >= 0 /\ d < 4000000 /\
               IF d < 40000 THEN within(Max2(0, d - 2), d + 2, 1000) ELSE within(d \div 100 - 1, d \div 100 + 2, 10)
  IN If(r.name # r.names[i], "C14.nearest") \cup
     If(~ok(r.dist), "C14.distance") \cup
     If(r.index # i - 1, "C14.nearest") \cup
     If(~ok(r.dist2), "C14.distance")

Fails(r) ==
  IF Has(r, "err") THEN {"ANY.raised"}
  ELSE CASE r.kind = "wall" -> WallFails(r)
         [] r.kind = "vertex" -> VertexFails(r)
         [] r.kind = "cross" -> CrossFails(r)
         [] r.kind = "moves" -> MovesFails(r)
         [] r.kind = "score" -> ScoreFails(r)
         [] r.kind = "loss" -> LossFails(r)
         [] r.kind = "power" -> PowerFails(r)
         [] r.kind = "extent" -> ExtentFails(r)
         [] r.kind = "nearest" -> NearestFails(r)

VARIABLES chunk, pos
TraceInit == chunk \in 1..NChunks /\ pos = ChunkLo(chunk)
TraceNext == /\ pos <= ChunkHi(chunk)
             /\ Say(Recs[pos], Fails(Recs[pos]))
             /\ IF pos = ChunkHi(chunk) THEN SayChunk(chunk) ELSE TRUE
             /\ pos' = pos + 1 /\ chunk' = chunk
TraceSpec == TraceInit /\ [][TraceNext]_<<chunk, pos>>
=============================================================================
