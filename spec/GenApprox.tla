------------------------------- MODULE GenApprox -------------------------------
(* Random behaviours of ApproxOps, printed for replay. *)
EXTENDS ApproxOps, TLC, Json
CONSTANTS Depth, MaxNest
VARIABLES hist, first
GenInit == OpsInit /\ hist = <<>> /\ first = flag
Pick1(S, d) == RandomElement({ x \in S : d >= 0 })
Kinds == {"ValueError", "KeyboardInterrupt", "SystemExit", "StopIteration", "GeneratorExit", "none"}
GenNext ==
  LET n == Len(hist) IN
  \E t \in Threads :
    \* "exit" twice as likely as the others once inside, so that contexts end
    \E o \in {Pick1(ops, n), IF st[t] # <<>> THEN [op |-> "exit"] ELSE Pick1(ops, n)} :
      /\ (o.op = "enter" => Len(st[t]) < MaxNest)
      /\ OpsStep(t, o)
      /\ hist' = Append(hist, [t |-> t, op |-> o.op, v |-> IF o.op = "exit" THEN FALSE ELSE o.v,
                               how |-> IF o.op = "exit" THEN Pick1(Kinds, n)
                                       ELSE IF o.op = "enter" THEN Pick1({"with", "deco", "manual"}, n) ELSE "",
                               flag |-> flag'])
      /\ first' = first
GenSpec == GenInit /\ [][GenNext]_<<flag, st, hist, first>>
Dump == Len(hist) = Depth => PrintT("HIST|" \o ToJson([first |-> first, hist |-> hist]))
=============================================================================
