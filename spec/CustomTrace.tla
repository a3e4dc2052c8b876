------------------------------ MODULE CustomTrace ------------------------------
(***************************************************************************)
(* r.kind = "scene": r.objs, r.tx, r.rx, r.opt, r.t, r.patch, r.tol,       *)
(*   r.loss, r.wt (weight of the bounces in the loss), r.allow, r.lo, r.hi *)
(*   r.paths: [c, xys (10^-3), l (10^-3), truth]; r.acc, r.cells           *)
(* r.kind = "seq": r.objs (visited in order), r.tx, r.rx, r.cls: points    *)
(*   (10^-3), parameters of each (10^-3), loss and length (10^-3)          *)
(* r.kind = "sample": points of objects drawn at random                    *)
(***************************************************************************)
EXTENDS Custom, TraceBase

Q(v) == Rat(v[1], v[2])
P2(v) == Pt(v[1], v[2])
If(c, x) == IF c THEN {x} ELSE {}
Off(o, p, w) == \E d \in 1..2 : Abs(o[d] - Scaled(p[d], 3)) > w + 1
Milli(q) == Rat(q, 1000)
RECURSIVE Newton(_, _)
Newton(n, k) == LET m == (k + n \div k) \div 2 IN IF m >= k THEN k ELSE Newton(n, m)
Root(q) == LET n == Scaled(q, 6) IN IF n = 0 THEN 0 ELSE Newton(n, 46340)
RECURSIVE LengthOf(_)
LengthOf(ps) == IF Len(ps) < 2 THEN 0 ELSE Root(Norm2(VSub(ps[2], ps[1]))) + LengthOf(Tail(ps))

Cands(r) ==
  LET n == Len(r.allow)
      c1 == [i \in 1..n |-> <<r.allow[i]>>]
      c2 == SelectSeq([i \in 1..(n * n) |-> <<r.allow[((i - 1) \div n) + 1], r.allow[((i - 1) % n) + 1]>>], LAMBDA c : c[1] # c[2])
  IN (IF r.lo <= 0 /\ 0 <= r.hi THEN <<<<>>>> ELSE <<>>) \o (IF r.lo <= 1 /\ 1 <= r.hi THEN c1 ELSE <<>>)
     \o (IF r.lo <= 2 /\ 2 <= r.hi /\ n > 0 THEN c2 ELSE <<>>)

Entry(r, c, rx) ==
  LET os == Chosen(r.objs, c)
      ps == Along(os, Q(r.t), P2(r.tx), rx)
      ss == [i \in 1..Len(os) |-> Even(os[i], Q(r.t))]
      loss == RAdd(Q(r.loss), RMul(Q(r.wt), Bounces(os, ps, 1)))
  IN [ps |-> ps, loss |-> loss, m |-> VerdictM(r.objs, c, ps, ss, Q(r.patch), RSub(Q(r.tol), loss))]

(* 1 + the tags of the objects met, each weighted by its place. *)
RECURSIVE Tags(_, _)
Tags(os, i) == IF i > Len(os) THEN 1 ELSE i * os[i].tag + Tags(os, i + 1)
LoV(m, k, al) == IF k = 1 THEN (IF m[1] = NINF THEN RZero ELSE HardSig(al, LoT(m))) ELSE IF RLt(RZero, LoT(m)) THEN ROne ELSE RZero
HiV(m, k, al) == IF k = 1 THEN HardSig(al, HiT(m)) ELSE IF RLt(HiT(m), RZero) THEN RZero ELSE ROne
RECURSIVE SumB(_, _, _, _, _)
SumB(r, cs, rx, i, high) ==
  IF i > Len(cs) THEN 0
  ELSE LET m == Entry(r, cs[i], rx).m
           v == IF high THEN HiV(m, r.opt.approx, AlphaOf(r.opt)) ELSE LoV(m, r.opt.approx, AlphaOf(r.opt))
       IN Tags(Chosen(r.objs, cs[i]), 1) * Scaled(v, 4) + SumB(r, cs, rx, i + 1, high)
Total(r, rx, v, pre) ==
  If(r.opt.fn = "hard" /\ (v < SumB(r, Cands(r), rx, 1, FALSE) - 400 \/ v > SumB(r, Cands(r), rx, 1, TRUE) + 400), pre)

SceneFails(r) ==
  LET cs == Cands(r)
  IN IF [i \in 1..Len(r.paths) |-> r.paths[i].c] # cs THEN {"C28.candidates"}
     ELSE UNION { LET e == r.paths[i] x == Entry(r, e.c, P2(r.rx))
                  IN IF Len(e.xys) # Len(x.ps) THEN {"C28.number_of_points"}
                     ELSE If(\E n \in 1..Len(x.ps) : Off(e.xys[n], x.ps[n], 1), "C28.point")
                          \cup If(Abs(e.l - Scaled(x.loss, 3)) > 3 + Abs(e.l) \div 5000, "C28.loss")
                          \cup { "C28.verdict_" \o f : f \in TruthFails(e.truth, x.m, r.opt) } : i \in 1..Len(cs) }
          \cup If(r.met # [i \in 1..Len(cs) |-> [n \in 1..Len(cs[i]) |-> r.objs[cs[i][n] + 1].tag]], "C28.objects_met")
          \cup Total(r, P2(r.rx), r.acc, "C28.sum")
          \cup UNION { Total(r, P2(r.cells[n].p), r.cells[n].v, "C28.map") : n \in 1..Len(r.cells) }

(* The point p (10^-3) is the one of the parameters s (10^-3). *)
Sits(o, s, p) == ~Off(p, PointOf(o, [d \in 1..Len(s) |-> Milli(s[d])]), 15)

(* A sequence of objects visited by a minimizing path. *)
Only(r, ks) == \A i \in 1..Len(r.objs) : r.objs[i].k \in ks
SeqFails(r) ==
  LET os == r.objs
      ps == [n \in 1..Len(r.xys) |-> <<Rat(r.xys[n][1] \div 10, 100), Rat(r.xys[n][2] \div 10, 100)>>]
  IN IF Len(ps) # Len(os) + 2 THEN {"C28.number_of_points"}
     ELSE If(Off(r.xys[1], P2(r.tx), 1) \/ Off(r.xys[Len(ps)], P2(r.rx), 1), "C28.ends")
          \cup If(\E i \in 1..Len(os) : Len(r.at[i]) # Arity(os[i]), "C28.parameters")
          \cup If(\E i \in 1..Len(os) : r.big = 0 /\ Len(r.at[i]) = Arity(os[i]) /\ ~Sits(os[i], r.at[i], r.xys[i + 1]), "C28.off_object")
          \cup If(r.cls = "min" /\ Only(r, {"D", "S", "V"}) /\ Len(os) > 0
                  /\ (\E i \in 1..Len(ps) : Off(r.xys[i], Perfect(os, P2(r.tx), P2(r.rx))[i], IF Len(os) <= 2 THEN 25 ELSE 120)), "C28.not_the_best")
          \cup If(r.cls = "min" /\ Only(r, {"D", "S", "V"}) /\ r.loss > 5, "C28.loss_left")
          \cup If(r.cls = "fermat" /\ Only(r, {"D", "S", "V"})
                  /\ ~(LengthOf(Taut(os, P2(r.tx), P2(r.rx))) - 5 <= r.len /\ r.len <= LengthOf(Taut(os, P2(r.tx), P2(r.rx))) + 150), "C28.not_the_shortest")
          \cup If(Only(r, {"D", "S", "V", "B"}) /\ r.big = 0
                  /\ LET x == Scaled(Bounces(os, ps, 1), 3) IN Abs(r.loss - x) > 100 + x \div 25, "C28.loss")

SampleFails(r) ==
  LET o == r.objs[1]
  IN If(\E n \in 1..Len(r.xys) : \/ Len(r.at[n]) # Arity(o)
                                  \/ \E d \in 1..Len(r.at[n]) : r.at[n][d] < -1 \/ r.at[n][d] > 1001
                                  \/ (Len(r.at[n]) = Arity(o) /\ ~Sits(o, r.at[n], r.xys[n])), "C28.sample_off_object")
     \cup If(Arity(o) > 0 /\ \A n \in 1..Len(r.xys) : r.xys[n] = r.xys[1], "C28.sample_not_random")
     \cup If(Arity(o) = 2 /\ \A n \in 1..Len(r.xys) : r.at[n][1] = r.at[n][2], "C28.sample_on_a_line")
     \cup If(r.again # r.xys[1], "C28.sample_not_a_function_of_its_key")

Fails(r) ==
  IF Has(r, "err") THEN {"C28.raised"}
  ELSE CASE r.kind = "scene" -> SceneFails(r) [] r.kind = "seq" -> SeqFails(r) [] r.kind = "sample" -> SampleFails(r)

VARIABLES chunk, pos
TraceInit == chunk \in 1..NChunks /\ pos = ChunkLo(chunk)
TraceNext == /\ pos <= ChunkHi(chunk)
             /\ Say(Recs[pos], Fails(Recs[pos]))
             /\ IF pos = ChunkHi(chunk) THEN SayChunk(chunk) ELSE TRUE
             /\ pos' = pos + 1 /\ UNCHANGED chunk
TraceSpec == TraceInit /\ [][TraceNext]_<<chunk, pos>>
=============================================================================
