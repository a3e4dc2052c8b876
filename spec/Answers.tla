-------------------------------- MODULE Answers --------------------------------
(***************************************************************************)
(* The answer to each question of a session, as a function of the question *)
(* and of nothing else.  g is one instance of the session's family:        *)
(*   g.walls, g.tx, g.rx, g.p, g.q   integers (lattice)                    *)
(*   g.x, g.y, g.u, g.alpha, g.patch, g.tol, g.loss   rationals as pairs   *)
(*   g.allow  indices of the objects that may be used                      *)
(* f: f.cand, f.fn, f.lo, f.hi (orders), f.t (place on the objects)        *)
(***************************************************************************)
EXTENDS Truth, Shapes

Q(v) == Rat(v[1], v[2])
P2(v) == Pt(v[1], v[2])
WallAt(g, i) == [k |-> "W", a |-> Pt(g.walls[i][1], g.walls[i][2]), b |-> Pt(g.walls[i][3], g.walls[i][4])]
Walls(g) == [i \in 1..Len(g.walls) |-> WallAt(g, i)]
Opt(g, f, k) == [approx |-> k, alpha |-> g.alpha, fn |-> f.fn]
Both(m) == <<m, m>>
Negated(m) == <<IF m[2] = INF THEN NINF ELSE RNeg(m[2]), IF m[1] = NINF THEN INF ELSE RNeg(m[1])>>

(* Relations of the numbers x and y. *)
Gap(g) == RSub(Q(g.x), Q(g.y))

CrossM(a, b, p, q, tol) ==
  LET A == VSub(b, a) C == VSub(p, a) V == VSub(q, p)
      den == Cross(A, V)
      na == Cross(C, VSub(q, a))
      nb == Cross(C, A)
      rng(s) == LET c == Bounded(s) IN RMin(RAdd(c, tol), RSub(RAdd(ROne, tol), c))
  IN IF a = b \/ p = q THEN [m |-> NINF, firm |-> TRUE]
     ELSE IF den[1] = 0 THEN (IF RLt(<<1, 50>>, RDiv(RAbs(nb), L1(A))) THEN [m |-> NINF, firm |-> TRUE] ELSE [m |-> RZero, firm |-> FALSE])
     ELSE [m |-> RMin(rng(RDiv(na, den)), rng(RDiv(nb, den))), firm |-> SinAbove(A, V, <<1, 50>>)]

(* The path through the places of parameter f.t of the objects of c. *)
Spot(f, w) == VAdd(w.a, VScale(Q(f.t), Dir(w)))
Through(g, f, c) == <<P2(g.tx)>> \o [i \in 1..Len(c) |-> Spot(f, WallAt(g, c[i] + 1))] \o <<P2(g.rx)>>
LossM(g) == RSub(Q(g.tol), Q(g.loss))
ValidM(g, f, c) == Margin(Walls(g), c, Through(g, f, c), Q(g.patch), LossM(g))
OnM(g, f, c) == LET m == MinOf(OnMargins(Walls(g), c, Through(g, f, c)), INF) IN Both(m)
BlockedM(g, f, c) == Negated(Margin(Walls(g), <<>>, <<P2(g.tx), P2(g.rx)>>, Q(g.patch), INF))
BlockedPathM(g, f, c) ==
  LET pts == Through(g, f, c)
      tests == BlockTests(Walls(g), c, pts, Q(g.patch))
      firm == { RNeg(t.m) : t \in { u \in tests : u.firm } }
      lo == MinOf(firm, INF)
      all == \A t \in tests : t.firm \/ RLt(t.m, <<-1, 10>>)
  IN Negated(<<IF all THEN lo ELSE NINF, lo>>)

(* Truths with a margin: the operations and their intervals. *)
MarginOps == {"greater", "greater_equal", "less", "less_equal", "cross", "contains", "hits", "on", "blocked", "valid"}
MarginOf(op, g, f) ==
  CASE op \in {"greater", "greater_equal"} -> Both(Gap(g))
    [] op \in {"less", "less_equal"} -> Both(RNeg(Gap(g)))
    [] op = "cross" -> MOf(CrossM(WallAt(g, 1).a, WallAt(g, 1).b, P2(g.p), P2(g.q), Q(g.tol)))
    [] op = "contains" -> Both(Bounded(RMin(Q(g.x), RSub(ROne, Q(g.x)))))
    [] op = "hits" -> MOf(Block(WallAt(g, 1), P2(g.p), P2(g.q), Q(g.patch)))
    [] op = "on" -> OnM(g, f, f.cand)
    [] op = "blocked" -> BlockedPathM(g, f, f.cand)
    [] op = "valid" -> ValidM(g, f, f.cand)
ExactOps == {"greater", "greater_equal", "less", "less_equal", "contains"}
Exactly(op, g) ==
  CASE op = "greater" -> RLt(RZero, Gap(g)) [] op = "greater_equal" -> RLe(RZero, Gap(g))
    [] op = "less" -> RLt(Gap(g), RZero) [] op = "less_equal" -> RLe(Gap(g), RZero)
    [] op = "contains" -> RLe(RZero, Q(g.x)) /\ RLe(Q(g.x), ROne)

(* Connectives on given truths: number of the answer (10^-4). *)
PlainOps == {"vertex", "vertex_hits", "and", "or", "not", "all", "any", "true", "false", "is_true", "is_false"}
RECURSIVE MinU(_, _)
MinU(us, i) == IF i = Len(us) THEN Q(us[i]) ELSE RMin(Q(us[i]), MinU(us, i + 1))
RECURSIVE MaxU(_, _)
MaxU(us, i) == IF i = Len(us) THEN Q(us[i]) ELSE RMax(Q(us[i]), MaxU(us, i + 1))
Bit(c) == IF c THEN ROne ELSE RZero
Yes(v) == Q(v)[1] # 0
PlainOf(op, g, k) ==
  LET u == g.u
  IN CASE op = "and" -> IF k = 1 THEN RMin(Q(u[1]), Q(u[2])) ELSE Bit(Yes(u[1]) /\ Yes(u[2]))
       [] op = "or" -> IF k = 1 THEN RMax(Q(u[1]), Q(u[2])) ELSE Bit(Yes(u[1]) \/ Yes(u[2]))
       [] op = "not" -> IF k = 1 THEN RSub(ROne, Q(u[1])) ELSE Bit(~Yes(u[1]))
       [] op = "all" -> IF k = 1 THEN MinU(u, 1) ELSE Bit(\A i \in 1..Len(u) : Yes(u[i]))
       [] op = "any" -> IF k = 1 THEN MaxU(u, 1) ELSE Bit(\E i \in 1..Len(u) : Yes(u[i]))
       [] op \in {"true", "vertex"} -> ROne
       [] op \in {"false", "vertex_hits"} -> RZero
       [] op = "is_true" -> IF k = 1 THEN Bit(RLt(RSub(ROne, Q(g.tol)), Q(u[1]))) ELSE Bit(Yes(u[1]))
       [] op = "is_false" -> IF k = 1 THEN Bit(RLt(Q(u[1]), Q(g.tol))) ELSE Bit(~Yes(u[1]))
AlwaysBool == {"is_true", "is_false"}

(* Candidates of the window (orders at most 2), in the listed order. *)
Cands(g, f) ==
  LET n == Len(g.allow)
      c1 == [i \in 1..n |-> <<g.allow[i]>>]
      c2 == SelectSeq([i \in 1..(n * n) |-> <<g.allow[((i - 1) \div n) + 1], g.allow[((i - 1) % n) + 1]>>], LAMBDA c : c[1] # c[2])
  IN (IF f.lo <= 0 /\ 0 <= f.hi THEN <<<<>>>> ELSE <<>>) \o (IF f.lo <= 1 /\ 1 <= f.hi THEN c1 ELSE <<>>)
     \o (IF f.lo <= 2 /\ 2 <= f.hi /\ n > 0 THEN c2 ELSE <<>>)

ListOps == {"paths"}           \* one truth per candidate
ListOf(g, f) == LET cs == Cands(g, f) IN [i \in 1..Len(cs) |-> ValidM(g, f, cs[i])]
(* Crisp or hard-sigmoid value of a margin interval, as an interval. *)
Slack == <<1, 500>>
LoV(m, k, al) == IF k = 1 THEN (IF m[1] = NINF THEN RZero ELSE HardSig(al, LoT(m))) ELSE Bit(RLt(RZero, LoT(m)))
HiV(m, k, al) == IF k = 1 THEN HardSig(al, HiT(m)) ELSE Bit(RLt(RZero, HiT(m)) \/ HiT(m)[1] = 0)
RECURSIVE SumV(_, _)
SumV(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumV(s, i + 1)
Lows(g, f, k) == LET ms == ListOf(g, f) IN [i \in 1..Len(ms) |-> Scaled(LoV(ms[i], k, Q(g.alpha)), 4)]
Highs(g, f, k) == LET ms == ListOf(g, f) IN [i \in 1..Len(ms) |-> Scaled(HiV(ms[i], k, Q(g.alpha)), 4) + 1]
(* Sums of validities over candidates, for the receiver (or a moved one). *)
Moved(g, at) == [g EXCEPT !.rx = at]
GridPts(g) == <<g.rx, g.p, g.q, <<g.rx[1] + 1, g.rx[2]>>>>

(* Tests that rounding can decide in favour of a valid path, listed.      *)
SureValid(g, f, k) == LET cs == Cands(g, f) IN { cs[i] : i \in { j \in 1..Len(cs) : LET m == ValidM(g, f, cs[j]) IN RLt(RZero, LoT(m)) } }
MaybeValid(g, f, k) == LET cs == Cands(g, f) IN { cs[i] : i \in { j \in 1..Len(cs) : LET m == ValidM(g, f, cs[j]) IN RLt(RZero, HiT(m)) \/ HiT(m)[1] = 0 } }

(* Numbers.  Distances are in units of 10^-3, scores in those of 10^-4.    *)
RECURSIVE Newton(_, _)
Newton(n, k) == LET m == (k + n \div k) \div 2 IN IF m >= k THEN k ELSE Newton(n, m)
Milli(q) == LET n == Scaled(q, 6) IN IF n = 0 THEN 0 ELSE Newton(n, 46340)
RECURSIVE LengthOf(_)
LengthOf(ps) == IF Len(ps) < 2 THEN 0 ELSE Milli(Norm2(VSub(ps[2], ps[1]))) + LengthOf(Tail(ps))
PowerOf(n, h, len) ==       \* of a path of len 10^-3, times 10^8
  LET d == (h * h * 1000 + (len * len) \div 1000) * Pow(2, n) IN Scaled(Rat(1000, d), 8)
(* 2 - 2 cos, from the sign and the square of the cosine. *)
ScoreOf(sc) == LET c == 10 * Milli(sc[2]) IN 20000 - 2 * sc[1] * c
Corners(g) == <<P2(g.tx), P2(g.p), P2(g.q)>>
Bent(g) == P2(g.p) # P2(g.q) /\ P2(g.tx) # P2(g.p)
WallScore(g) == LET c == Corners(g) IN ScoreOf(WallCos(WallAt(g, 1), c[1], c[2], c[3]))
(* A surface at its own angle, 45 degrees: both its cosine and its sine are 1 / sqrt 2. *)
RISScore(g) == LET c == Corners(g) s == RISCos(WallAt(g, 1), <<ROne, ROne>>, c[2], c[3]) IN ScoreOf(<<s[1], RDiv(s[2], I2R(2))>>)
NearOf(ps, q) == LET i == Nearest(ps, q) IN <<i - 1, Milli(Norm2(VSub(ps[i], q)))>>
(* Three steps of plain descent at rate 1/10 on |z - rx|^2, from tx. *)
Descended(g) ==
  LET e == VScale(<<64, 125>>, VSub(P2(g.tx), P2(g.rx)))
      z == VAdd(P2(g.rx), e)
  IN <<z[1], z[2], Norm2(e)>>
EndsOf(g) == <<P2(g.tx), P2(g.rx)>> \o [n \in 1..(2 * Len(g.walls)) |-> LET w == WallAt(g, (n + 1) \div 2) IN IF n % 2 = 1 THEN w.a ELSE w.b]

(* Points of the image method. *)
ImageWs(g, f) == [i \in 1..Len(f.cand) |-> WallAt(g, f.cand[i] + 1)]
(* Numbers that fit: at most one bounce, or two on walls of simple slopes. *)
Slope2(w) == LET d == Gcd(Abs(w[3] - w[1]), Abs(w[4] - w[2])) IN Pow((w[3] - w[1]) \div d, 2) + Pow((w[4] - w[2]) \div d, 2)
ImageFits(g, f) ==
  \/ Len(f.cand) <= 1
  \/ Len(f.cand) = 2 /\ Slope2(g.walls[f.cand[1] + 1]) * Slope2(g.walls[f.cand[2] + 1]) <= 10
ImageOk(g, f) ==
  LET ws == ImageWs(g, f)
      ims == Images(ws, P2(g.tx))
      ps == SpecularPoints(ws, P2(g.tx), P2(g.rx))
  IN (\A i \in 1..Len(ws) : ~ZeroLen(ws[i])) /\ SpecularRegular(ws, ims, ps)
ImagePts(g, f) == SpecularPoints(ImageWs(g, f), P2(g.tx), P2(g.rx))
=============================================================================
