------------------------------ MODULE SessionTrace ------------------------------
(***************************************************************************)
(* One record per session: r.gs (instances), r.fs (families), r.hist with  *)
(* the answers.  e.out.b, .v, .i: per scalar of the answer, whether it is a    *)
(* boolean, its value (10^-4) and the inverse of the sigmoid (10^-4 of     *)
(* margin); e.out.c candidates; e.flag what the global flag says after it. *)
(***************************************************************************)
EXTENDS Session, Answers, TraceBase

If(c, x) == IF c THEN {x} ELSE {}
Tr(o, n) == [b |-> o.b[n], v |-> o.v[n], i |-> o.i[n], sat |-> o.sat]
Tag(pre, S) == { pre \o x : x \in S }

Kind(o, k, n) == If(o.b[n] # 1 - k, "kind")
Truths(o, ms, opt) ==
  IF Len(o.v) # Len(ms) THEN {"number_of_answers"}
  ELSE UNION { TruthFails(Tr(o, n), ms[n], opt) : n \in 1..Len(ms) }
Between(v, lo, hi) == lo - 60 <= v /\ v <= hi + 60

Close(a, b, w) == Abs(a - b) <= w + Abs(b) \div 1000
Exact(o, xs, w) ==
  IF Len(o.v) # Len(xs) THEN {"number_of_answers"}
  ELSE If(\E n \in 1..Len(xs) : ~Close(o.v[n], Scaled(xs[n], 4), w), "wrong")

(* The answer o to the question e about g, when its kind is k. *)
Judge(e, g, f, k) ==
  LET o == e.out
      opt == Opt(g, f, k)
  IN CASE e.op \in MarginOps ->
            Truths(o, <<MarginOf(e.op, g, f)>>, opt) \cup
            If(k = 0 /\ e.op \in ExactOps /\ Len(o.v) = 1 /\ o.v # <<IF Exactly(e.op, g) THEN 10000 ELSE 0>>, "wrong")
       [] e.op \in PlainOps ->
            IF Len(o.v) # 1 THEN {"number_of_answers"}
            ELSE Kind(o, IF e.op \in AlwaysBool THEN 0 ELSE k, 1) \cup If(Abs(o.v[1] - Scaled(PlainOf(e.op, g, k), 4)) > 2, "wrong")
       [] e.op = "paths" -> Truths(o, ListOf(g, f), opt)
       [] e.op = "found" ->
            LET got == { o.c[n] : n \in 1..Len(o.c) }
            IN If(~(SureValid(g, f, k) \subseteq got) \/ ~(got \subseteq MaybeValid(g, f, k)), "wrong")
       [] e.op = "acc" ->
            IF Len(o.v) # 1 THEN {"number_of_answers"}
            ELSE If(f.fn = "hard" /\ ~Between(o.v[1], SumV(Lows(g, f, k), 1), SumV(Highs(g, f, k), 1)), "wrong")
       [] e.op = "grid" ->
            IF Len(o.v) # 4 THEN {"number_of_answers"}
            ELSE If(f.fn = "hard" /\ \E n \in 1..4 : LET h == Moved(g, GridPts(g)[n]) IN ~Between(o.v[n], SumV(Lows(h, f, k), 1), SumV(Highs(h, f, k), 1)), "wrong")
       [] e.op = "cands" -> If(o.c # Cands(g, f), "wrong")
       [] e.op = "image" ->
            IF ~ImageFits(g, f) THEN If(Len(o.v) # 2 * Len(f.cand) + 4, "number_of_answers")   \* the numbers outgrow TLC
            ELSE LET ps == ImagePts(g, f)
            IN IF Len(o.v) # 2 * Len(ps) THEN {"number_of_answers"}
               ELSE If(ImageOk(g, f) /\ \E n \in 1..Len(ps) : \E d \in 1..2 :
                         LET x == Scaled(ps[n][d], 4) IN Abs(o.v[2 * n - 2 + d] - x) > 60 + Abs(x) \div 1000, "wrong")
       [] e.op = "mirror" ->
            LET p == ImageOf(WallAt(g, 1), P2(g.p)) IN If(\E d \in 1..2 : Abs(o.v[d] - Scaled(p[d], 4)) > 40, "wrong")
       [] e.op \in {"near", "far"} ->
            LET x == IF e.op = "near" THEN NearOf(<<P2(g.p), P2(g.q), P2(g.rx)>>, P2(g.tx)) ELSE NearOf(<<P2(g.q), P2(g.p), P2(g.tx)>>, P2(g.rx))
            IN IF Len(o.v) # 2 THEN {"number_of_answers"} ELSE If(o.v[1] # 10000 * x[1], "wrong") \cup If(~Close(o.v[2], 10 * x[2], 40), "distance")
       [] e.op = "box" ->
            LET x == BoxOf(EndsOf(g)) IN Exact(o, <<x[1][1], x[1][2], x[2][1], x[2][2]>>, 4)
       [] e.op = "minimize" -> Exact(o, Descended(g), 40)
       [] e.op = "place" -> LET x == At(WallAt(g, 1), Q(g.x)) IN Exact(o, <<x[1], x[2]>>, 20)
       [] e.op = "param" -> Exact(o, <<Param(WallAt(g, 1), P2(g.p))>>, 20)
       [] e.op = "length" -> IF Len(o.v) # 1 THEN {"number_of_answers"} ELSE If(~Close(o.v[1], 10 * LengthOf(Through(g, f, f.cand)), 60), "wrong")
       [] e.op = "power" ->
            IF Len(o.v) # 1 THEN {"number_of_answers"}
            ELSE LET x == PowerOf(Len(f.cand), g.alpha[1], LengthOf(Through(g, f, f.cand))) IN If(~Close(o.v[1], x, 40 + x \div 100), "wrong")
       [] e.op \in {"score", "ris"} ->
            IF Len(o.v) # 1 THEN {"number_of_answers"}
            ELSE If(Bent(g) /\ ~Close(o.v[1], IF e.op = "score" THEN WallScore(g) ELSE RISScore(g), 60), "wrong")
       [] OTHER -> {}

(* The questions whose answers are only compared with one another. *)
Loose == {"fermat", "minimize"}
SameAnswer(e, d) ==
  LET o == e.out p == d.out
      open(n) == Abs(o.v[n]) > 300000000 \/ Abs(p.v[n]) > 300000000
      w == IF e.op \in Loose THEN 40 ELSE 12
  IN Len(o.v) = Len(p.v) /\ o.b = p.b /\ o.c = p.c
     /\ \A n \in 1..Len(o.v) : open(n) \/ Abs(o.v[n] - p.v[n]) <= w + Abs(p.v[n]) \div 2000
(* Where rounding decides, two compilation modes may differ.               *)
Sharp == {"valid", "on", "blocked", "hits", "cross", "paths", "found", "acc", "grid"}
Sure(e, g, f) == IF e.op = "image" THEN ImageFits(g, f) /\ ImageOk(g, f) ELSE e.op \notin Sharp
Comparable(e, d, g, f) == e.mode = d.mode \/ Sure(e, g, f)

RECURSIVE Walk(_, _, _, _, _)
Walk(r, n, fl, st, sn) ==
  IF n > Len(r.hist) THEN {}
  ELSE LET e == r.hist[n]
           bad(S) == IF S = {} THEN {} ELSE Tag("C11." \o e.op \o "_", S) \cup Tag("C24." \o e.op \o "_", S)
       IN IF e.t = "call"
          THEN LET ks == Known(e.a, e.mode, fl, sn)
                   k == CHOOSE x \in ks : TRUE
                   g == r.gs[e.i]
               IN (IF Has(e, "err") THEN If(Cardinality(ks) = 1, "C11.raised") \cup If(Cardinality(ks) = 1, "C24.raised")
                   ELSE IF Cardinality(ks) # 1 THEN {}
                   ELSE bad(Judge(e, g, r.fs[g.f], k)) \cup
                        bad(If(\E m \in 1..(n - 1) : /\ r.hist[m].t = "call" /\ ~Has(r.hist[m], "err") /\ r.hist[m].op = e.op /\ r.hist[m].i = e.i
                                             /\ r.hist[m].k = e.k /\ e.k # 2 /\ Comparable(e, r.hist[m], g, r.fs[g.f]) /\ ~SameAnswer(e, r.hist[m]), "changed")))
                  \cup If(e.k # (IF Cardinality(ks) = 1 THEN k ELSE 2), "ANY.harness")
                  \cup If(e.flag # fl, "C11.flag_disturbed") \cup Walk(r, n + 1, fl, st, sn)
          ELSE LET fl2 == CASE e.t \in {"set", "enter"} -> e.v [] e.t = "exit" -> st[Len(st)] [] OTHER -> fl
                   st2 == CASE e.t = "enter" -> Append(st, fl) [] e.t = "exit" -> SubSeq(st, 1, Len(st) - 1) [] OTHER -> st
                   sn2 == IF e.t = "clear" THEN {fl} ELSE sn \cup {fl2}
               IN If(e.flag # fl2, "C11.flag_disturbed") \cup Walk(r, n + 1, fl2, st2, sn2)

Fails(r) == IF Has(r, "err") THEN {"ANY.raised"} ELSE Walk(r, 1, 0, <<>>, {0})

VARIABLES chunk, pos
TraceInit == chunk \in 1..NChunks /\ pos = ChunkLo(chunk) /\ SInit
TraceNext == /\ pos <= ChunkHi(chunk)
             /\ Say(Recs[pos], Fails(Recs[pos]))
             /\ IF pos = ChunkHi(chunk) THEN SayChunk(chunk) ELSE TRUE
             /\ pos' = pos + 1 /\ UNCHANGED <<chunk, flag, stack, seen, cache, last>>
TraceSpec == TraceInit /\ [][TraceNext]_<<chunk, pos, flag, stack, seen, cache, last>>
TraceCalls(op) == {}
=============================================================================
