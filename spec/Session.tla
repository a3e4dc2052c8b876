-------------------------------- MODULE Session --------------------------------
(***************************************************************************)
(* A process that asks for things, one after the other, while the global   *)
(* smoothing flag is set, scoped by contexts and restored.                 *)
(*                                                                         *)
(* Operations call others (Calls) and hand their own smoothing choice on:  *)
(* 1, 0, or -1 (none given).  A compiled operation is traced once per      *)
(* choice and never again until the caches are cleared, so that without a  *)
(* choice it remembers the flag of its trace - and of the traces of what   *)
(* it calls.  The kinds of an answer are all those mixed in it.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Ops,          \* operations
          Calls(_),     \* what each of them calls
          MaxNest

VARIABLES flag, stack, seen, cache, last

B == {0, 1}
None == -1
Empty == [k \in {} |-> {}]

Own(a, fl) == IF a = None THEN fl ELSE a
(* Uncompiled: everything is read when asked. *)
RECURSIVE Fresh(_, _, _)
Fresh(op, a, fl) == {Own(a, fl)} \cup UNION { Fresh(x, a, fl) : x \in Calls(op) }
(* Compiled: the cache after the call knows every operation reached. *)
RECURSIVE Reached(_)
Reached(op) == {op} \cup UNION { Reached(x) : x \in Calls(op) }
RECURSIVE Traced(_, _, _, _)
Traced(op, a, fl, c) ==
  IF <<op, a>> \in DOMAIN c THEN c[<<op, a>>]
  ELSE {Own(a, fl)} \cup UNION { Traced(x, a, fl, c) : x \in Calls(op) }
Grown(op, a, fl, c) ==
  [k \in DOMAIN c \cup { <<x, a>> : x \in Reached(op) } |->
     IF k \in DOMAIN c THEN c[k] ELSE Traced(k[1], a, fl, c)]

SInit == flag = 0 /\ stack = <<>> /\ seen = {0} /\ cache = Empty /\ last = [op |-> "", a |-> 0, kinds |-> {0}, mode |-> ""]
Set(v) == flag' = v /\ seen' = seen \cup {v} /\ UNCHANGED <<stack, cache, last>>
Enter(v) == Len(stack) < MaxNest /\ stack' = Append(stack, flag) /\ flag' = v /\ seen' = seen \cup {v} /\ UNCHANGED <<cache, last>>
Exit == stack # <<>> /\ flag' = stack[Len(stack)] /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
        /\ seen' = seen \cup {stack[Len(stack)]} /\ UNCHANGED <<cache, last>>
Clear == seen' = {flag} /\ cache' = Empty /\ UNCHANGED <<flag, stack, last>>
Call(op, a, mode) ==
  /\ IF mode = "nojit"
     THEN cache' = cache /\ last' = [op |-> op, a |-> a, kinds |-> Fresh(op, a, flag), mode |-> mode]
     ELSE cache' = Grown(op, a, flag, cache) /\ last' = [op |-> op, a |-> a, kinds |-> Traced(op, a, flag, cache), mode |-> mode]
  /\ UNCHANGED <<flag, stack, seen>>

(* What a user can tell about the kinds of an answer. *)
Known(a, mode, fl, sn) == IF a # None THEN {a} ELSE IF mode = "nojit" THEN {fl} ELSE sn

Next == \/ \E v \in B : Set(v) \/ Enter(v)
        \/ Exit \/ Clear
        \/ \E op \in Ops, a \in {None, 0, 1}, m \in {"plain", "nojit"} : Call(op, a, m)
Spec == SInit /\ [][Next]_<<flag, stack, seen, cache, last>>

(* An explicit choice always wins, whatever happened before. *)
ExplicitWins == [][last' # last /\ last'.a # None => last'.kinds = {last'.a}]_last
(* Without a choice an uncompiled call follows the flag. *)
FollowsFlag == [][last'.a = None /\ last'.mode = "nojit" /\ last' # last => last'.kinds = {flag}]_<<flag, last>>
(* ... and a compiled one a flag that was in force since the last clearing. *)
FromSeen == [][last' # last => last'.kinds \subseteq Known(last'.a, last'.mode, flag, seen)]_<<flag, seen, last>>
CacheSound == \A k \in DOMAIN cache : cache[k] \subseteq (IF k[2] = None THEN seen ELSE {k[2]}) /\ cache[k] # {}
FlagSeen == flag \in seen
Unwinds == \A i \in 1..Len(stack) : stack[i] \in B
(* Kinds can really be mixed (this is why a choice must be explicit). *)
NeverMixed == \A k \in DOMAIN cache : Cardinality(cache[k]) = 1
=============================================================================
