------------------------------- MODULE ApproxOps -------------------------------
(***************************************************************************)
(* The smoothing flag and the contexts of several threads, one action per  *)
(* completed call.  A context excludes the contexts and the setters of the *)
(* other threads until it is left; leaving it, however that happens,       *)
(* restores the value it found.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Threads

Alone(st, t) == \A u \in Threads \ {t} : st[u] = <<>>
Push(st, t, x) == [st EXCEPT ![t] = Append(@, x)]
Pop(st, t) == [st EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Top(s) == s[Len(s)]

(* op: [op |-> "enter", v |-> BOOLEAN], [op |-> "exit"], [op |-> "set", v], [op |-> "read"] *)
Can(s, t, o) ==
  CASE o.op \in {"enter", "set"} -> Alone(s.st, t)
    [] o.op = "exit" -> s.st[t] # <<>>
    [] o.op = "read" -> TRUE
Do(s, t, o) ==
  CASE o.op = "enter" -> [flag |-> o.v, st |-> Push(s.st, t, s.flag)]
    [] o.op = "set" -> [s EXCEPT !.flag = o.v]
    [] o.op = "exit" -> [flag |-> Top(s.st[t]), st |-> Pop(s.st, t)]
    [] o.op = "read" -> s

VARIABLES flag, st
Cur == [flag |-> flag, st |-> st]
ops == { [op |-> "enter", v |-> b] : b \in BOOLEAN } \cup
       { [op |-> "set", v |-> b] : b \in BOOLEAN } \cup { [op |-> "exit"] }
OpsInit == flag \in BOOLEAN /\ st = [t \in Threads |-> <<>>]
OpsStep(t, o) == /\ Can(Cur, t, o)
                 /\ flag' = Do(Cur, t, o).flag
                 /\ st' = Do(Cur, t, o).st
OpsNext == \E t \in Threads, o \in ops : OpsStep(t, o)
OpsSpec == OpsInit /\ [][OpsNext]_<<flag, st>>
=============================================================================
