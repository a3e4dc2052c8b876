------------------------------ MODULE PathsTrace ------------------------------
(***************************************************************************)
(* Decides recorded executions of the ray tracer.                          *)
(* Kinds of records:                                                       *)
(*   scene   every path of a scene, as enumerated by the code              *)
(*   path    one explicit path and its validity                            *)
(*   accum   results accumulated over the paths of each pair               *)
(*   grid    results (and gradients) accumulated over a grid of positions  *)
(*   recip   the paths of a scene and of the same scene seen from rx       *)
(* Coordinates are lattice units; observations are integers, scaled.       *)
(***************************************************************************)
EXTENDS Tracing, Candidates, TraceBase

Obj(q) == IF q[1] = "W" THEN [k |-> "W", a |-> Pt(q[2], q[3]), b |-> Pt(q[4], q[5])]
          ELSE [k |-> "V", a |-> Pt(q[2], q[3]), b |-> Pt(q[2], q[3])]
Objs(r) == [i \in 1..Len(r.objs) |-> Obj(r.objs[i])]
P2(q) == Pt(q[1], q[2])
Q(p) == Rat(p[1], p[2])           \* a rational given as [num, den]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

NAN == 2100000001
PINF == 2100000002
MINF == 2100000003
Finite(o) == o < 2100000000
Close(o, a, tol) ==    \* observation (10^-3 units) of the rational a
  LET e == Scaled(a, 3) IN Finite(o) /\ Abs(o - e) <= tol + Abs(e) \div 1000
PtClose(o, p, tol) == Close(o[1], p[1], tol) /\ Close(o[2], p[2], tol)

-----------------------------------------------------------------------------
(* The path the specification expects for one candidate. *)

AtParam(o, s) == VAdd(o.a, VScale(s, VSub(o.b, o.a)))
Expected(r, objs, cand, tx, rx) ==
  LET ws == Pick(objs, cand)
      opt == r.opt
      patch == Q(opt.patch)
      tol == Q(opt.tol)
  IN IF r.cls = "image"
     THEN LET ims == Images(ws, tx)
              pts == <<tx>> \o BackAcc(ws, ims, rx, <<>>) \o <<rx>>
              reg == SpecularRegular(ws, ims, pts)
              \* the direct path has no bounce to be irregular
              ok == reg \/ Len(cand) = 0
              score == IF ok THEN SumScores(ws, pts, 1) ELSE 0
          IN [pts |-> pts, reg |-> ok, score |-> score,
              last |-> IF Len(cand) = 0 THEN tx ELSE ims[Len(cand)],
              m |-> IF ~ok THEN <<NINF, INF>>
                    ELSE Margin(objs, cand, pts, patch, RSub(tol, I2R(score)))]
     ELSE LET s == IF r.cls = "probe" THEN Q(opt.t) ELSE <<1, 2>>
              loss == IF r.cls = "probe" THEN Q(opt.loss) ELSE RZero
              pts == <<tx>> \o [i \in 1..Len(ws) |-> AtParam(ws[i], s)] \o <<rx>>
          IN [pts |-> pts, reg |-> TRUE, score |-> 0, last |-> tx,
              m |-> Margin(objs, cand, pts, patch, RSub(tol, loss))]

-----------------------------------------------------------------------------
(* Validity: observation v (10^-4 units), b = 1 when it is a boolean,      *)
(* i = inverse of the smoothing (10^-4 units of margin).                   *)
EpsM == <<1, 5000>>
LoEps(m) == RSub(m[1], EpsM)
HiEps(m) == RAdd(m[2], EpsM)

CrispFails(o, m) ==
  (IF o.b # 1 THEN {"C04.not_boolean"} ELSE {}) \cup
  (IF o.v \notin {0, 10000} THEN {"C04.not_a_truth_value"} ELSE {}) \cup
  (IF o.v = 10000 /\ RLt(HiEps(m), RZero) THEN {"C04.valid_but_should_not"} ELSE {}) \cup
  (IF o.v = 0 /\ RLt(RZero, LoEps(m)) THEN {"C04.invalid_but_should_not"} ELSE {})

SmoothFails(o, m, opt) ==
  LET al == Q(opt.alpha)
      tolv == 40
      lo == IF m[1] = NINF THEN RZero ELSE HardSig(al, LoEps(m))
      hi == HardSig(al, HiEps(m))
      clo == IF m[1] = NINF THEN -BIG ELSE Scaled(LoEps(m), 4)
      chi == Scaled(HiEps(m), 4)
  IN (IF o.b # 0 THEN {"C05.boolean_in_smooth_mode"} ELSE {}) \cup
     (IF ~Finite(o.v) THEN {"C05.not_finite"}
      ELSE IF o.v < 0 \/ o.v > 10000 THEN {"C05.out_of_range"}
      ELSE IF opt.fn = "hard"
      THEN (IF o.v + tolv < Scaled(lo, 4) THEN {"C05.too_low"} ELSE {}) \cup
           (IF o.v - tolv > Scaled(hi, 4) + 1 THEN {"C05.too_high"} ELSE {})
      ELSE \* o.i is the inverse of the smoothing, clipped to +-o.sat
           (IF o.i < o.sat /\ o.i + 20 + Abs(o.i) \div 100 < clo THEN {"C05.too_low"} ELSE {}) \cup
           (IF o.i > -o.sat /\ o.i - 20 - Abs(o.i) \div 100 > chi + 1 THEN {"C05.too_high"} ELSE {}))
     \cup (IF RLt(RZero, LoEps(m)) /\ al[1] > 0 /\ o.t = 0 THEN {"C05.disagrees_with_crisp"} ELSE {})
     \cup (IF RLt(HiEps(m), RZero) /\ al[1] > 0 /\ o.t = 1 THEN {"C05.disagrees_with_crisp"} ELSE {})

ValidFails(o, m, opt) == IF opt.approx = 1 THEN SmoothFails(o, m, opt) ELSE CrispFails(o, m)

-----------------------------------------------------------------------------
(* kind = "scene" *)

Key(e) == <<e.tn, e.rn, e.c>>

EntryFails(r, objs, e) ==
  LET ti == CHOOSE i \in 1..Len(r.txn) : r.txn[i] = e.tn
      ri == CHOOSE i \in 1..Len(r.rxn) : r.rxn[i] = e.rn
      tx == P2(r.tx[ti])
      rx == P2(r.rx[ri])
      x == Expected(r, objs, e.c, tx, rx)
      n == Len(e.c)
      len2 == Norm2(VSub(rx, x.last))
      \* (len +- 5/1000)^2 around the exact squared length
      l == e.len
  IN (IF Len(e.p) # n + 2 THEN {"C02.number_of_points"}
      ELSE (IF ~PtClose(e.p[1], tx, 2) THEN {"C02.does_not_start_at_tx"} ELSE {}) \cup
           (IF ~PtClose(e.p[n + 2], rx, 2) THEN {"C02.does_not_end_at_rx"} ELSE {}) \cup
           (IF r.cls = "image"
            THEN (IF x.reg /\ \E i \in 2..(n + 1) : ~PtClose(e.p[i], x.pts[i], 10)
                  THEN {"C03.wrong_point"} ELSE {}) \cup
                 (IF x.reg /\ (~Finite(e.l) \/ Abs(e.l - 10000 * x.score) > 200)
                  THEN {"C03.wrong_loss"} ELSE {}) \cup
                 (IF x.reg /\ x.score = 0 /\ n > 0 /\
                     ~(Finite(l) /\ l < 40000 /\
                       RLe(RSub(Rat(Max2(0, l - 10 - l \div 1000) * Max2(0, l - 10 - l \div 1000), 1000000), <<1, 1000>>), len2) /\
                       RLe(len2, Rat((l + 10 + l \div 1000) * (l + 10 + l \div 1000), 1000000)))
                  THEN {"C03.wrong_length"} ELSE {})
            ELSE IF r.cls \in {"mid", "probe"}
            THEN (IF \E i \in 2..(n + 1) : ~PtClose(e.p[i], x.pts[i], 5)
                  THEN {"C02.wrong_point"} ELSE {})
            ELSE {})) \cup
     (IF r.cls \in {"image", "mid", "probe"} THEN ValidFails(e, x.m, r.opt) ELSE
      IF ~Finite(e.v) \/ e.v < 0 \/ e.v > 10000 THEN {"C05.out_of_range", "C04.not_a_truth_value"} ELSE {})

SceneFails(r) ==
  LET objs == Objs(r)
      nt == Len(r.txn) nr == Len(r.rxn) nc == Len(r.cands)
      want == [k \in 1..(nt * nr * nc) |->
                 <<r.txn[(k - 1) \div (nr * nc) + 1],
                   r.rxn[(((k - 1) \div nc) % nr) + 1],
                   r.cands[((k - 1) % nc) + 1]>>]
      got == [k \in 1..Len(r.paths) |-> Key(r.paths[k])]
      truthy == SelectSeq(r.paths, LAMBDA e : e.t = 1)
      orders == r.lo..r.hi
      allowed == { r.allowed[i] : i \in 1..Len(r.allowed) }
  IN (IF got # want THEN {"C02.entries"} ELSE {}) \cup
     (IF \E k \in 1..nc : ~(/\ Len(r.cands[k]) \in orders
                            /\ \A i \in 1..Len(r.cands[k]) : r.cands[k][i] \in allowed)
      THEN {"C02.foreign_candidate"} ELSE {}) \cup
     (IF { r.cands[k] : k \in 1..nc } # AllWalks(allowed, r.lo, r.hi) THEN {"C02.candidates"} ELSE {}) \cup
     (IF Has(r, "valid") /\ [k \in 1..Len(r.valid) |-> <<Key(r.valid[k]), r.valid[k].p>>]
                            # [k \in 1..Len(truthy) |-> <<Key(truthy[k]), truthy[k].p>>]
      THEN {"C02.valid_paths_are_not_the_true_ones"} ELSE {}) \cup
     (IF got # want THEN {} ELSE UNION { EntryFails(r, objs, r.paths[k]) : k \in 1..Len(r.paths) })

-----------------------------------------------------------------------------
(* kind = "path": explicit points (exact), loss, tolerance, patch. *)
PathFails(r) ==
  LET objs == Objs(r)
      pts == [i \in 1..Len(r.pts) |-> P2(r.pts[i])]
      opt == r.opt
      loss == Q(opt.loss)
      tol == Q(opt.tol)
      m == Margin(objs, r.c, pts, Q(opt.patch), RSub(tol, loss))
      on == MinOf(OnMargins(objs, r.c, pts), INF)
      tests == BlockTests(objs, r.c, pts, Q(opt.patch))
      clear == \A t \in tests : RLt(t.m, <<-1, 1000>>) /\ (t.firm \/ RLt(t.m, <<-1, 10>>))
      o == r.out
  IN IF Has(r, "nan") /\ r.nan = 1      \* an undefined loss can never be valid
     THEN (IF opt.approx = 1
           THEN (IF o.v # 0 \/ o.t # 0 THEN {"C05.undefined_path_is_valid"} ELSE {})
           ELSE (IF o.v # 0 \/ o.t # 0 THEN {"C04.undefined_path_is_valid"} ELSE {}))
     ELSE ValidFails(o, m, opt) \cup
     \* On the dyadic lattice the boundaries are exact: the ends of a wall
     \* belong to it, and the loss has to be strictly below the tolerance.
     (IF opt.approx = 0 /\ r.exact = 1 /\ clear
      THEN LET yes == RLe(RZero, on) /\ RLt(loss, tol)
           IN IF yes /\ o.v = 0 THEN {"C04.boundary_invalid"}
              ELSE IF ~yes /\ o.v # 0 THEN {"C04.boundary_valid"} ELSE {}
      ELSE {})

-----------------------------------------------------------------------------
(* Accumulation.  The accumulated function is                              *)
(*   k1 len^2 + k2 (n + 1) + k3 (3 rx.x + 5 rx.y) + k4 (2 tx.x + 7 tx.y)   *)
(*   + k5 sum_j j (a_j.x + 2 b_j.y)                                        *)
(* an exact polynomial of the lattice coordinates.                         *)
RECURSIVE ObjSum(_, _)
ObjSum(ws, j) ==
  IF j > Len(ws) THEN RZero
  ELSE RAdd(RMul(I2R(j), RAdd(ws[j].a[1], RMul(I2R(2), ws[j].b[2]))), ObjSum(ws, j + 1))
Weight(r, ws, tx, rx, x) ==
  LET k == r.k
      lin(p, a, b) == RAdd(RMul(I2R(a), p[1]), RMul(I2R(b), p[2]))
  IN RAdd(RMul(I2R(k[1]), Norm2(VSub(rx, x.last))),
     RAdd(I2R(k[2] * (Len(ws) + 1)),
     RAdd(RMul(I2R(k[3]), lin(rx, 3, 5)),
     RAdd(RMul(I2R(k[4]), lin(tx, 2, 7)),
          RMul(I2R(k[5]), ObjSum(ws, 1))))))

(* Interval of the truth value used as a factor. *)
Factor(r, m) ==
  IF r.opt.approx = 0
  THEN <<IF RLt(RZero, LoEps(m)) THEN ROne ELSE RZero, IF RLt(HiEps(m), RZero) THEN RZero ELSE ROne>>
  ELSE LET al == Q(r.opt.alpha)
       IN IF r.opt.fn = "sig"
          THEN \* exact only where the sigmoid is saturated to 10^-5
               <<IF RLt(I2R(12), RMul(al, LoEps(m))) THEN <<9999, 10000>> ELSE RZero,
                 IF RLt(RMul(al, HiEps(m)), I2R(-12)) THEN <<1, 50000>> ELSE ROne>>
          ELSE <<IF m[1] = NINF THEN RZero ELSE HardSig(al, LoEps(m)), HardSig(al, HiEps(m))>>

(* <<lo, hi, known>> of the accumulated value over candidates k, k+1, ... *)
RECURSIVE AccFrom(_, _, _, _, _)
AccFrom(r, objs, tx, rx, k) ==
  IF k > Len(r.cands) THEN <<0, 0, TRUE>>
  ELSE LET rest == AccFrom(r, objs, tx, rx, k + 1)
       IN IF ~rest[3] THEN rest
          ELSE LET x == Expected(r, objs, r.cands[k], tx, rx)
               IN IF ~x.reg THEN <<0, 0, FALSE>>
                  ELSE LET f == Factor(r, x.m)
                       IN IF f[2][1] = 0 THEN rest
                          ELSE LET w == Weight(r, Pick(objs, r.cands[k]), tx, rx, x)
                                   a == Scaled(w, 3)
                                   times(v) == (((a \div 1000) * v) \div 10) + (((a % 1000) * v) \div 10000)
                                   p == times(Scaled(f[1], 4))
                                   q == times(Scaled(f[2], 4))
                               IN IF x.score # 0 THEN <<0, 0, FALSE>>
                                  ELSE <<rest[1] + Min2(p, q) - 3 - Abs(a) \div 1000,
                                         rest[2] + Max2(p, q) + 3 + Abs(a) \div 1000, TRUE>>
Acc(r, objs, tx, rx) == AccFrom(r, objs, tx, rx, 1)
In(o, iv, tol) == Finite(o) /\ o >= iv[1] - tol /\ o <= iv[2] + tol

RECURSIVE AddAll(_, _)
AddAll(ivs, k) ==
  IF k > Len(ivs) THEN <<0, 0, TRUE>>
  ELSE LET s == AddAll(ivs, k + 1)
       IN <<ivs[k][1] + s[1], ivs[k][2] + s[2], ivs[k][3] /\ s[3]>>

AccumFails(r) ==
  LET objs == Objs(r)
      nt == Len(r.txn) nr == Len(r.rxn)
      tx(k) == P2(r.tx[(k - 1) \div nr + 1])
      rx(k) == P2(r.rx[((k - 1) % nr) + 1])
      ivs == [k \in 1..(nt * nr) |-> Acc(r, objs, tx(k), rx(k))]
      want == [k \in 1..(nt * nr) |-> <<r.txn[(k - 1) \div nr + 1], r.rxn[((k - 1) % nr) + 1]>>]
  IN (IF r.reduce = 1
      THEN LET s == AddAll(ivs, 1)
           IN IF s[3] /\ ~In(r.z, s, 5) THEN {"C06.total"} ELSE
              IF ~Finite(r.z) THEN {"C06.not_finite"} ELSE {}
      ELSE IF [k \in 1..Len(r.res) |-> <<r.res[k].tn, r.res[k].rn>>] # want
           THEN {"C06.pairs"}
           ELSE (IF \E k \in 1..(nt * nr) : ivs[k][3] /\ ~In(r.res[k].z, ivs[k], 5)
                 THEN {"C06.value"} ELSE {}) \cup
                (IF \E k \in 1..(nt * nr) : ~Finite(r.res[k].z) THEN {"C06.not_finite"} ELSE {}))

-----------------------------------------------------------------------------
(* Grids.  r.side = "rx": the receiver moves, one map per transmitter.     *)
GridPt(r, i, j) == <<I2R(r.X[i][j]), I2R(r.Y[i][j])>>
CellTx(r, f, g) == IF r.side = "rx" THEN P2(r.fixed[f]) ELSE g
CellRx(r, f, g) == IF r.side = "rx" THEN g ELSE P2(r.fixed[f])

(* Gradient with respect to the moving end, when every truth value is      *)
(* saturated (its own derivative is then zero).                            *)
Saturated(r, m) ==
  IF r.opt.approx = 0
  THEN IF RLt(<<1, 1000>>, m[1]) THEN 1 ELSE IF RLt(m[2], <<-1, 1000>>) THEN 0 ELSE -1
  ELSE LET al == Q(r.opt.alpha)
       IN IF r.opt.fn = "sig" THEN -1    \* never exactly flat
          ELSE IF RLt(<<32, 10>>, RMul(al, m[1])) THEN 1
          ELSE IF RLt(RMul(al, m[2]), <<-32, 10>>) THEN 0 ELSE -1

(* d |p_n - other|^2 / d p: 2 (p - image chain seen from p's side). *)
MoveGrad(r, ws, tx, rx) ==
  LET k == r.k
      pull == IF r.side = "rx"
              THEN VSub(rx, IF Len(ws) = 0 THEN tx ELSE Images(ws, tx)[Len(ws)])
              ELSE VSub(tx, IF Len(ws) = 0 THEN rx ELSE Images(Rev(ws), rx)[Len(ws)])
      own == IF r.side = "rx" THEN <<I2R(3 * k[3]), I2R(5 * k[3])>>
             ELSE <<I2R(2 * k[4]), I2R(7 * k[4])>>
  IN VAdd(VScale(I2R(2 * k[1]), pull), own)

RECURSIVE GradFrom(_, _, _, _, _)
GradFrom(r, objs, tx, rx, k) ==   \* <<gradient, known>>
  IF k > Len(r.cands) THEN <<Pt(0, 0), TRUE>>
  ELSE LET rest == GradFrom(r, objs, tx, rx, k + 1)
       IN IF ~rest[2] THEN rest
          ELSE LET x == Expected(r, objs, r.cands[k], tx, rx)
                   s == IF x.reg THEN Saturated(r, x.m) ELSE -1
               IN IF s = 1 /\ x.score # 0 THEN <<rest[1], FALSE>>
                  ELSE CASE s = -1 -> <<rest[1], FALSE>>
                         [] s = 0 -> rest
                         [] s = 1 -> <<VAdd(rest[1], MoveGrad(r, Pick(objs, r.cands[k]), tx, rx)), TRUE>>
Grad(r, objs, tx, rx) == GradFrom(r, objs, tx, rx, 1)

Idx(r) == { <<i, j>> : i \in 1..Len(r.X), j \in 1..Len(r.X[1]) }

(* One map: z values and g gradients of cell <<i, j>> for fixed end f;     *)
(* with reduce = 1 the fixed ends are summed.                              *)
CellFails(r, objs, fs, out, c) ==
  LET g == GridPt(r, c[1], c[2])
      nf == Len(fs)
      zs == IF Has(out, "z") THEN [q \in 1..nf |-> Acc(r, objs, CellTx(r, fs[q], g), CellRx(r, fs[q], g))] ELSE <<>>
      z == AddAll(zs, 1)
      gs == IF Has(out, "g") THEN [q \in 1..nf |-> Grad(r, objs, CellTx(r, fs[q], g), CellRx(r, fs[q], g))] ELSE <<>>
      gknown == \A q \in 1..Len(gs) : gs[q][2]
      gsum[q \in 0..Len(gs)] == IF q = 0 THEN Pt(0, 0) ELSE VAdd(gsum[q - 1], gs[q][1])
  IN (IF Has(out, "z")
      THEN (IF ~Finite(out.z[c[1]][c[2]]) THEN {"C07.not_finite"}
            ELSE IF z[3] /\ ~In(out.z[c[1]][c[2]], z, 5) THEN {"C07.value"} ELSE {})
      ELSE {}) \cup
     (IF Has(out, "g")
      THEN LET o == out.g[c[1]][c[2]]
           IN IF ~Finite(o[1]) \/ ~Finite(o[2]) THEN {"C08.not_finite"}
              ELSE IF gknown /\ ~PtClose(o, gsum[Len(gs)], 20) THEN {"C08.gradient"} ELSE {}
      ELSE {})

Shape2(a, m, n) == Len(a) = m /\ \A i \in 1..m : Len(a[i]) = n
MapShape(r, out) ==
  LET m == Len(r.X) n == Len(r.X[1])
  IN /\ (r.wantz = 1) = Has(out, "z") /\ (r.wantg = 1) = Has(out, "g")
     /\ (Has(out, "z") => Shape2(out.z, m, n))
     /\ (Has(out, "g") => Shape2(out.g, m, n) /\ \A i \in 1..m, j \in 1..n : Len(out.g[i][j]) = 2)

GridFails(r) ==
  LET objs == Objs(r)
      nf == Len(r.fixed)
      bad == IF r.wantz = 1 THEN {"C07.shape"} ELSE {"C08.shape"}
  IN IF r.reduce = 1
     THEN IF nf = 0 THEN {}
          ELSE IF ~MapShape(r, r.maps[1]) THEN bad
          ELSE UNION { CellFails(r, objs, [q \in 1..nf |-> q], r.maps[1], c) : c \in Idx(r) }
     ELSE IF [k \in 1..Len(r.maps) |-> r.maps[k].n] # r.fixedn
          THEN {"C07.names", "C08.names"}
          ELSE IF \E k \in 1..nf : ~MapShape(r, r.maps[k]) THEN bad
          ELSE UNION { UNION { CellFails(r, objs, <<k>>, r.maps[k], c) : c \in Idx(r) } : k \in 1..nf }

-----------------------------------------------------------------------------
(* kind = "recip": the code's own paths, both ways round. *)
Matches(e, f, tol) ==   \* f is e walked backwards
  /\ e.tn = f.rn /\ e.rn = f.tn /\ e.c = Rev(f.c)
RecipFails(r) ==
  LET objs == Objs(r)
      pairOf(e) == { k \in 1..Len(r.back) : Matches(e, r.back[k], 0) }
      one(e) ==
        LET S == pairOf(e)
        IN IF S = {} THEN {"C21.missing_reverse_path"}
           ELSE LET f == r.back[CHOOSE k \in S : TRUE]
                    ti == CHOOSE i \in 1..Len(r.txn) : r.txn[i] = e.tn
                    ri == CHOOSE i \in 1..Len(r.rxn) : r.rxn[i] = e.rn
                    tx == P2(r.tx[ti]) rx == P2(r.rx[ri])
                    x == Expected(r, objs, e.c, tx, rx)
                    y == Expected(r, objs, Rev(e.c), rx, tx)
                    firm == x.reg /\ y.reg /\ x.m[1] = x.m[2]
                    n == Len(e.p)
                    near(a, b) == Finite(a) /\ Finite(b) /\ Abs(a - b) <= 10 + Abs(a) \div 500
                IN (IF firm /\ \E i \in 1..n : ~near(e.p[i][1], f.p[n + 1 - i][1]) \/ ~near(e.p[i][2], f.p[n + 1 - i][2])
                    THEN {"C21.points"} ELSE {}) \cup
                   (IF firm /\ ~near(e.len, f.len) THEN {"C21.length"} ELSE {}) \cup
                   (IF firm /\ (~Finite(e.l) \/ ~Finite(f.l) \/ Abs(e.l - f.l) > 200) THEN {"C21.loss"} ELSE {}) \cup
                   (IF r.opt.approx = 1
                    THEN IF firm /\ Abs(e.v - f.v) > 60 THEN {"C21.validity"} ELSE {}
                    ELSE IF firm /\ (RLt(RZero, LoEps(x.m)) \/ RLt(HiEps(x.m), RZero)) /\ e.v # f.v
                         THEN {"C21.validity"} ELSE {})
  IN (IF Len(r.paths) # Len(r.back) THEN {"C21.number_of_paths"} ELSE {}) \cup
     UNION { one(r.paths[k]) : k \in 1..Len(r.paths) }

-----------------------------------------------------------------------------
Fails(r) ==
  IF Has(r, "err") THEN {"ANY.raised"}
  ELSE CASE r.kind = "scene" -> SceneFails(r)
         [] r.kind = "path" -> PathFails(r)
         [] r.kind = "accum" -> AccumFails(r)
         [] r.kind = "grid" -> GridFails(r)
         [] r.kind = "recip" -> RecipFails(r)

VARIABLES chunk, pos
TraceInit == chunk \in 1..NChunks /\ pos = ChunkLo(chunk)
TraceNext == /\ pos <= ChunkHi(chunk)
             /\ Say(Recs[pos], Fails(Recs[pos]))
             /\ IF pos = ChunkHi(chunk) THEN SayChunk(chunk) ELSE TRUE
             /\ pos' = pos + 1 /\ chunk' = chunk
TraceSpec == TraceInit /\ [][TraceNext]_<<chunk, pos>>
=============================================================================
