-------------------------------- MODULE Streams --------------------------------
(***************************************************************************)
(* Tracing and accumulating are lazy: they return streams, and the work is *)
(* done while a stream is pulled.  A scene is [tx, rx: seq of              *)
(* <<name, number>>, objs: seq of <<kind, number>>], and paths, validity   *)
(* and functions are stand-ins given by numbers, so that what every stream *)
(* has to yield is known exactly.  A request is                            *)
(*   [kind, lo, hi, filt, approx, salt, b, cells].                         *)
(* filt: 0, 1 keep objects with even, odd numbers; 2 keeps all.            *)
(***************************************************************************)
EXTENDS Candidates

RECURSIVE Weigh(_, _, _)
Weigh(s, c, i) == IF i > Len(c) THEN 0 ELSE i * s.objs[c[i] + 1][2] + Weigh(s, c, i + 1)
Kept(s, r) == { i \in 0..(Len(s.objs) - 1) : r.filt = 2 \/ s.objs[i + 1][2] % 2 = r.filt }
Due(s, r) == AllWalks(Kept(s, r), r.lo, r.hi)

(* Validity in quarters, and the function that is accumulated.             *)
Quarters(s, r, t, x, c) ==
  LET v == (t + 2 * x + 3 * Weigh(s, c, 1) + 5 * Len(s.objs) + r.salt) % 5
  IN IF r.approx = 1 THEN v ELSE IF v >= 2 THEN 4 ELSE 0
IsIn(r, q) == q > 2
Fun(s, r, t, x, c) == 100 * t + 10 * x + Weigh(s, c, 1) + Len(c) + r.b
RECURSIVE Total(_, _, _, _, _, _)
Total(s, r, t, x, cs, k) ==
  IF k > Len(cs) THEN 0 ELSE Quarters(s, r, t, x, cs[k]) * Fun(s, r, t, x, cs[k]) + Total(s, r, t, x, cs, k + 1)

(* The candidates come in some order cs; pairs in the order of the scene.  *)
Pairs(s) == [n \in 1..(Len(s.tx) * Len(s.rx)) |-> <<s.tx[((n - 1) \div Len(s.rx)) + 1], s.rx[((n - 1) % Len(s.rx)) + 1]>>]
Entries(s, r, cs) ==
  LET ps == Pairs(s) m == Len(cs)
  IN [n \in 1..(Len(ps) * m) |->
       LET p == ps[((n - 1) \div m) + 1] c == cs[((n - 1) % m) + 1]
       IN <<p[1][1], p[2][1], Quarters(s, r, p[1][2], p[2][2], c), c>>]
Cells(s, r, cs, x, rx) == [k \in 1..Len(r.cells) |-> IF rx THEN Total(s, r, x, r.cells[k], cs, 1) ELSE Total(s, r, r.cells[k], x, cs, 1)]
Full(s, r, cs) ==
  LET ps == Pairs(s)
  IN CASE r.kind = "pairs" -> [n \in 1..Len(ps) |-> <<ps[n][1][1], ps[n][2][1]>>]
       [] r.kind = "paths" -> Entries(s, r, cs)
       [] r.kind = "found" -> LET f == SelectSeq(Entries(s, r, cs), LAMBDA e : IsIn(r, e[3])) IN [n \in 1..Len(f) |-> <<f[n][1], f[n][2], f[n][4]>>]
       [] r.kind = "acc" -> [n \in 1..Len(ps) |-> <<ps[n][1][1], ps[n][2][1], Total(s, r, ps[n][1][2], ps[n][2][2], cs, 1)>>]
       [] r.kind = "rxgrid" -> [n \in 1..Len(s.tx) |-> <<s.tx[n][1], Cells(s, r, cs, s.tx[n][2], TRUE)>>]
       [] r.kind = "txgrid" -> [n \in 1..Len(s.rx) |-> <<s.rx[n][1], Cells(s, r, cs, s.rx[n][2], FALSE)>>]

(* A request for the sum of everything is answered at once.                *)
RECURSIVE SumOf(_, _, _)
SumOf(f, n, i) == IF i > n THEN 0 ELSE f[i] + SumOf(f, n, i + 1)
Whole(s, r, cs) ==
  LET a == Full(s, r, cs)
  IN IF r.kind = "acc" THEN <<SumOf([n \in 1..Len(a) |-> a[n][3]], Len(a), 1)>>
     ELSE [k \in 1..Len(r.cells) |-> SumOf([n \in 1..Len(a) |-> a[n][2][k]], Len(a), 1)]

(* Edits give a new scene; streams opened before keep the old one.         *)
Put(ps, n, x) ==
  IF \E i \in 1..Len(ps) : ps[i][1] = n THEN [i \in 1..Len(ps) |-> IF ps[i][1] = n THEN <<n, x>> ELSE ps[i]] ELSE Append(ps, <<n, x>>)
Edited(s, e) ==
  CASE e.ed = "tx" -> [s EXCEPT !.tx = Put(@, e.n, e.x)]
    [] e.ed = "rx" -> [s EXCEPT !.rx = Put(@, e.n, e.x)]
    [] e.ed = "onlytx" -> [s EXCEPT !.tx = <<<<e.n, e.x>>>>]
    [] e.ed = "onlyrx" -> [s EXCEPT !.rx = <<<<e.n, e.x>>>>]
    [] e.ed = "add" -> [s EXCEPT !.objs = Append(@, <<"W", e.x>>)]
    [] e.ed = "keep" -> [s EXCEPT !.objs = SelectSeq(@, LAMBDA o : o[2] % 2 = e.x % 2)]
-----------------------------------------------------------------------------
(* The machine: streams pulled in any order, one candidate at a time, some *)
(* at the same time, while the scenes at hand are edited.                  *)
CONSTANTS Ids, Requests, Edits, Firsts, MaxEdits
VARIABLES now,       \* the scene at hand
          streams,   \* id -> stream
          edits
None == [st |-> "none"]
RECURSIVE ByLength(_)
ByLength(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE x \in S : \A y \in S : Len(x) <= Len(y) IN <<c>> \o ByLength(S \ {c})
Order(s, r) == ByLength(Due(s, r))
Init == now \in Firsts /\ streams = [i \in Ids |-> None] /\ edits = 0
Begin(i, r) == /\ streams[i].st = "none"
               /\ streams' = [streams EXCEPT ![i] = [st |-> "idle", s |-> now, r |-> r, cs |-> Order(now, r), p |-> 1, k |-> 1, acc |-> 0, out |-> <<>>]]
               /\ UNCHANGED <<now, edits>>
Pull(i) == streams[i].st = "idle" /\ streams' = [streams EXCEPT ![i].st = "pulled"] /\ UNCHANGED <<now, edits>>
Advance(i) ==
  /\ streams[i].st = "pulled"
  /\ LET t == streams[i] ps == Pairs(t.s) m == Len(t.cs)
         last == t.k > m
         c == t.cs[t.k]
         a == ps[t.p][1] b == ps[t.p][2]
         v == Quarters(t.s, t.r, a[2], b[2], c)
         give(x) == [t EXCEPT !.out = Append(@, x), !.st = "idle"]
         next(x) == [x EXCEPT !.k = @ + 1]
     IN streams' = [streams EXCEPT ![i] =
          IF t.p > Len(ps) THEN [t EXCEPT !.st = "over"]
          ELSE IF last
          THEN LET u == [(IF t.r.kind = "acc" THEN give(<<a[1], b[1], t.acc>>) ELSE t) EXCEPT !.p = @ + 1, !.k = 1, !.acc = 0] IN u
          ELSE CASE t.r.kind = "paths" -> next(give(<<a[1], b[1], v, c>>))
                 [] t.r.kind = "found" -> next(IF IsIn(t.r, v) THEN give(<<a[1], b[1], c>>) ELSE t)
                 [] t.r.kind = "acc" -> next([t EXCEPT !.acc = @ + v * Fun(t.s, t.r, a[2], b[2], c)])]
  /\ UNCHANGED <<now, edits>>
Edit == edits < MaxEdits /\ edits' = edits + 1 /\ \E e \in Edits : now' = Edited(now, e) /\ UNCHANGED streams
Next == (\E i \in Ids : (\E r \in Requests : Begin(i, r)) \/ Pull(i) \/ Advance(i)) \/ Edit
Spec == Init /\ [][Next]_<<now, streams, edits>> /\ \A i \in Ids : WF_<<now, streams, edits>>(Pull(i) \/ Advance(i))

Prefix == \A i \in Ids : streams[i].st # "none" =>
            LET t == streams[i] f == Full(t.s, t.r, t.cs)
            IN /\ Len(t.out) <= Len(f) /\ t.out = SubSeq(f, 1, Len(t.out))
               /\ (t.st = "over" => t.out = f)
Runs == \A i \in Ids : (streams[i].st # "none") ~> (streams[i].st = "over")
(* A stream is moved by its own pulls only. *)
Apart == [][\A i, j \in Ids : (i # j /\ streams'[i] # streams[i]) => streams'[j] = streams[j]]_<<now, streams, edits>>
=============================================================================
