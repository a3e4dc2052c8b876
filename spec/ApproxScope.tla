------------------------------ MODULE ApproxScope ------------------------------
(***************************************************************************)
(* The protocol of the implementation, step by step: a re-entrant lock held*)
(* for the whole context, the flag saved after the lock is taken and       *)
(* restored before it is released.  SaveFirst = TRUE is the broken order   *)
(* (flag saved before the lock is taken), kept to show that the invariants *)
(* can fail.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, MaxOps, SaveFirst, MaxDepth

VARIABLES flag, owner, depth, pc, want, snap, stack, mine, nops, serial
vars == <<flag, owner, depth, pc, want, snap, stack, mine, nops, serial>>
(* mine[t]: what thread t was promised, one entry per context it is in;    *)
(* serial: the flag according to the setters called outside any context,   *)
(* in the order in which they took the lock.                               *)

TopOf(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

Init == /\ flag \in BOOLEAN /\ serial = flag
        /\ owner = 0 /\ depth = 0
        /\ pc = [t \in Threads |-> "idle"]
        /\ want = [t \in Threads |-> FALSE]
        /\ snap = [t \in Threads |-> FALSE]
        /\ stack = [t \in Threads |-> <<>>]
        /\ mine = [t \in Threads |-> <<>>]
        /\ nops = [t \in Threads |-> 0]

Free(t) == owner \in {0, t}
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]

CallEnter(t, v) ==
  /\ pc[t] = "idle" /\ nops[t] < MaxOps /\ Len(stack[t]) < MaxDepth
  /\ nops' = [nops EXCEPT ![t] = @ + 1]
  /\ want' = [want EXCEPT ![t] = v]
  /\ snap' = [snap EXCEPT ![t] = flag]
  /\ Goto(t, "e_acquire")
  /\ UNCHANGED <<flag, owner, depth, stack, mine, serial>>
EnterAcquire(t) ==
  /\ pc[t] = "e_acquire" /\ Free(t)
  /\ owner' = t /\ depth' = depth + 1
  /\ Goto(t, "e_save")
  /\ UNCHANGED <<flag, want, snap, stack, mine, nops, serial>>
EnterSave(t) ==
  /\ pc[t] = "e_save"
  /\ stack' = [stack EXCEPT ![t] = Append(@, IF SaveFirst THEN snap[t] ELSE flag)]
  /\ Goto(t, "e_assign")
  /\ UNCHANGED <<flag, owner, depth, want, snap, mine, nops, serial>>
EnterAssign(t) ==
  /\ pc[t] = "e_assign"
  /\ flag' = want[t]
  /\ mine' = [mine EXCEPT ![t] = Append(@, want[t])]
  /\ Goto(t, "idle")
  /\ UNCHANGED <<owner, depth, want, snap, stack, nops, serial>>

ExitRestore(t) ==      \* normal end or exception: the same steps
  /\ pc[t] = "idle" /\ stack[t] # <<>>
  /\ flag' = TopOf(stack[t])
  /\ stack' = [stack EXCEPT ![t] = Front(@)]
  /\ mine' = [mine EXCEPT ![t] = Front(@)]
  /\ Goto(t, "x_release")
  /\ UNCHANGED <<owner, depth, want, snap, nops, serial>>
Release(t) ==
  /\ depth' = depth - 1
  /\ owner' = IF depth = 1 THEN 0 ELSE owner
ExitRelease(t) ==
  /\ pc[t] = "x_release"
  /\ Release(t)
  /\ Goto(t, "idle")
  /\ UNCHANGED <<flag, want, snap, stack, mine, nops, serial>>

CallSet(t, v) ==
  /\ pc[t] = "idle" /\ nops[t] < MaxOps
  /\ nops' = [nops EXCEPT ![t] = @ + 1]
  /\ want' = [want EXCEPT ![t] = v]
  /\ Goto(t, "s_acquire")
  /\ UNCHANGED <<flag, owner, depth, snap, stack, mine, serial>>
SetAcquire(t) ==
  /\ pc[t] = "s_acquire" /\ Free(t)
  /\ owner' = t /\ depth' = depth + 1
  /\ Goto(t, "s_assign")
  /\ UNCHANGED <<flag, want, snap, stack, mine, nops, serial>>
SetAssign(t) ==
  /\ pc[t] = "s_assign"
  /\ flag' = want[t]
  /\ IF mine[t] = <<>>
     THEN serial' = want[t] /\ mine' = mine
     ELSE serial' = serial /\ mine' = [mine EXCEPT ![t] = Append(Front(@), want[t])]
  /\ Goto(t, "s_release")
  /\ UNCHANGED <<owner, depth, want, snap, stack, nops>>
SetRelease(t) ==
  /\ pc[t] = "s_release"
  /\ Release(t)
  /\ Goto(t, "idle")
  /\ UNCHANGED <<flag, want, snap, stack, mine, nops, serial>>

Step(t) == \/ \E v \in BOOLEAN : CallEnter(t, v) \/ CallSet(t, v)
           \/ EnterAcquire(t) \/ EnterSave(t) \/ EnterAssign(t)
           \/ ExitRestore(t) \/ ExitRelease(t)
           \/ SetAcquire(t) \/ SetAssign(t) \/ SetRelease(t)
Next == \E t \in Threads : Step(t)
Spec == /\ Init /\ [][Next]_vars
        /\ (\A t \in Threads : WF_vars(Step(t)))
        /\ (\A u \in Threads : SF_vars(EnterAcquire(u) \/ SetAcquire(u)))

-----------------------------------------------------------------------------
(* In the body of a context the flag is what this thread asked for last. *)
BodySeesItsOwn == \A t \in Threads :
  (mine[t] # <<>> /\ pc[t] = "idle") => flag = TopOf(mine[t])
(* When nobody is inside, the flag is explained by a serial order. *)
Serializable == owner = 0 => flag = serial
LockOk == (owner = 0) <=> (depth = 0)
(* Everybody gets out. *)
AllDone == <>[](\A t \in Threads : pc[t] = "idle" /\ stack[t] = <<>>)

(* The protocol refines the machine whose actions are whole calls. *)
Seen(t) == IF pc[t] = "e_assign" THEN Front(stack[t]) ELSE stack[t]
Whole == INSTANCE ApproxOps WITH st <- [t \in Threads |-> Seen(t)]
RefinesOps == Whole!OpsSpec
=============================================================================
