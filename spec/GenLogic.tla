------------------------------- MODULE GenLogic -------------------------------
(* Random behaviours of the machine of Logic.tla, printed for replay.       *)
EXTENDS Logic, TLC, Json
CONSTANT Depth
VARIABLE hist
GenValues == { Rat(k, 8) : k \in -24..24 } \cup { I2R(k) : k \in {-100, -5, 7, 60} } \cup { Rat(k, 256) : k \in {-3, -1, 1, 2, 7} }
Pick1(S) == RandomElement({ x \in S : Len(hist) >= 0 })
Rs(k) == [i \in 1..k |-> Pick1(Regs)]
Xs == [i \in 1..Width |-> Pick1(Values)]
GenInit == /\ reg = [r \in Regs |-> [i \in 1..Width |-> [m |-> RZero, b |-> FALSE]]]
           /\ hist = <<>>
Rec(op, r, as, xs, ys) == [op |-> op, r |-> r, as |-> as, xs |-> xs, ys |-> ys]
GenNext ==
  \E r \in {IF Len(hist) < 3 THEN Len(hist) + 1 ELSE Pick1(Regs)},
     op \in {IF Len(hist) < 3 \/ Pick1(1..4) = 1 THEN Pick1(Cmps)
             ELSE Pick1({"not", "and", "or", "all", "any", "allof", "anyof"})},
     xs \in {Xs}, ys0 \in {Xs}, as \in {Rs(Pick1(1..3))}, eq \in {Pick1(0..Width)} :
       LET ys == [i \in 1..Width |-> IF i = eq THEN xs[i] ELSE ys0[i]]
           a == as[1]
           b == as[Len(as)]
       IN /\ CASE op \in Cmps -> DoCmp(r, op, xs, ys)
                [] op = "not" -> DoNot(r, a)
                [] op = "and" -> DoAnd(r, a, b)
                [] op = "or" -> DoOr(r, a, b)
                [] op = "all" -> DoAll(r, as)
                [] op = "any" -> DoAny(r, as)
                [] op = "allof" -> DoAllOf(r, as)
                [] op = "anyof" -> DoAnyOf(r, as)
          /\ hist' = Append(hist, IF op \in Cmps THEN Rec(op, r, <<>>, xs, ys) ELSE Rec(op, r, as, <<>>, <<>>))
GenSpec == GenInit /\ [][GenNext]_<<reg, hist>>
Dump == Len(hist) = Depth => PrintT("HIST|" \o ToJson([hist |-> hist]))
=============================================================================
