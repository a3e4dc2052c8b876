------------------------------- MODULE GenSession -------------------------------
(* Random sessions: choices of flags, contexts and questions for replay.    *)
EXTENDS Session, TLC, Json
CONSTANTS Depth, Insts, Light, Heavy, Flags    \* Flags: weight of flag changes (1..3), 1: every choice explicit
VARIABLE hist
GenCalls(op) == {}
GenOps == Light \cup Heavy
Pick1(S) == RandomElement({ x \in S : Len(hist) >= 0 })
Ask(op, i, a, m) == [t |-> "call", op |-> op, i |-> i, a |-> a, mode |-> m, v |-> 0]
Do(t, v) == [t |-> t, op |-> "", i |-> 0, a |-> 0, mode |-> "", v |-> v]
Asked == { k \in 1..Len(hist) : hist[k].t = "call" }
GenInit == SInit /\ hist = <<>>
Modes == {"plain", "plain", "nojit", "jit", "vmap"}
ModeSeq == <<"plain", "plain", "nojit", "jit", "vmap">>
GenNext ==
  \E c \in {Pick1(1..10)}, v \in {Pick1(B)},
     op0 \in {IF Pick1(1..3) = 1 THEN Pick1(Heavy) ELSE Pick1(Light)},
     i0 \in {Pick1(1..Insts)}, a0 \in {IF Flags < 2 THEN Pick1(B) ELSE Pick1({None, 0, 1})},
     m \in {ModeSeq[Pick1(1..5)]}, again \in {Pick1(1..3)}, old \in {IF Asked = {} THEN 0 ELSE Pick1(Asked)} :
    IF c <= Flags
    THEN CASE c = 1 /\ stack # <<>> /\ v = 1 -> Exit /\ hist' = Append(hist, Do("exit", Pick1(B)))
           [] c = 1 /\ v = 0 -> Clear /\ hist' = Append(hist, Do("clear", 0))
           [] c = 2 \/ (c = 1 /\ stack = <<>>) -> \E w \in {Pick1(B)} : Set(w) /\ hist' = Append(hist, Do("set", w))
           [] OTHER -> IF Len(stack) < MaxNest THEN Enter(v) /\ hist' = Append(hist, Do("enter", v))
                       ELSE Exit /\ hist' = Append(hist, Do("exit", v))
    ELSE LET rep == again = 1 /\ old # 0
             op == IF rep THEN hist[old].op ELSE op0
             i == IF rep THEN hist[old].i ELSE i0
             a == IF rep THEN hist[old].a ELSE a0
         IN Call(op, a, m) /\ hist' = Append(hist, Ask(op, i, a, m))
GenSpec == GenInit /\ [][GenNext]_<<flag, stack, seen, cache, last, hist>>
Dump == Len(hist) = Depth => PrintT("HIST|" \o ToJson([hist |-> hist]))
=============================================================================
