------------------------------ MODULE ApproxTrace ------------------------------
(***************************************************************************)
(* kind "replay": a behaviour of ApproxOps was forced, call by call, on    *)
(*   real threads; r.seen[k] is the flag read by the acting thread then.   *)
(* kind "free": threads ran their programs under a forced schedule of      *)
(*   finer steps; only what each thread saw, in its own order, is known.   *)
(*   Some interleaving of whole calls has to explain it.                   *)
(***************************************************************************)
EXTENDS ApproxOps, TraceBase

Start(b) == [flag |-> b, st |-> [t \in Threads |-> <<>>]]
B(x) == x = 1
Op(e) == IF e.op \in {"enter", "set"} THEN [op |-> e.op, v |-> B(e.v)] ELSE [op |-> e.op]

RECURSIVE Fold(_, _, _)
Fold(r, s, k) ==
  IF k > Len(r.hist) THEN {}
  ELSE LET e == r.hist[k]
           t == Do(s, e.t, Op(e))
       IN (IF r.seen[k] # (IF t.flag THEN 1 ELSE 0)
           THEN {IF e.op = "exit" THEN "C10.not_restored" ELSE IF e.op = "enter" THEN "C10.not_in_force" ELSE "C10.not_set"}
           ELSE {}) \cup Fold(r, t, k + 1)
ReplayFails(r) ==
  IF r.stuck # "" THEN {"C10.stuck"}
  ELSE Fold(r, Start(B(r.first)), 1) \cup
       (IF r.lost # 0 THEN {"C10.exception_swallowed"} ELSE {})

(* --- free schedules: reachable <<positions, state>> --- *)
Succ(r, x) ==
  { y \in { [pc |-> [x.pc EXCEPT ![t] = @ + 1],
             s |-> Do(x.s, t, Op(r.prog[t][x.pc[t]]))] :
              t \in { u \in 1..Len(r.prog) : x.pc[u] <= Len(r.prog[u]) /\ Can(x.s, u, Op(r.prog[u][x.pc[u]])) } } :
      \A t \in 1..Len(r.prog) :
        (y.pc[t] # x.pc[t] /\ r.prog[t][x.pc[t]].op = "read")
          => x.s.flag = B(r.seen[t][x.pc[t]]) }
RECURSIVE Closure(_, _, _)
Closure(r, done, new) ==
  IF new = {} THEN done
  ELSE LET all == done \cup new
           next == UNION { Succ(r, x) : x \in new }
       IN Closure(r, all, next \ all)
FreeFails(r) ==
  IF r.stuck # "" THEN {"C10.stuck"}
  ELSE LET n == Len(r.prog)
           x0 == [pc |-> [t \in 1..n |-> 1], s |-> Start(B(r.first))]
           reach == Closure(r, {}, {x0})
           ends == { x \in reach : \A t \in 1..n : x.pc[t] = Len(r.prog[t]) + 1 }
       IN IF ends = {} THEN {"C10.not_explained"}
          ELSE (IF \A x \in ends : x.s.flag # B(r.final) THEN {"C10.final_value"} ELSE {})
               \cup (IF r.lost # 0 THEN {"C10.exception_swallowed"} ELSE {})

EnvFails(r) == (IF r.flag # r.given THEN {"C10.initial_value"} ELSE {}) \cup
               (IF r.kindof # r.given THEN {"C10.initial_value"} ELSE {})

Fails(r) == IF Has(r, "err") THEN {"ANY.raised"}
            ELSE CASE r.kind = "replay" -> ReplayFails(r)
                   [] r.kind = "free" -> FreeFails(r)
                   [] r.kind = "env" -> EnvFails(r)

VARIABLES chunk, pos
TraceInit == chunk \in 1..NChunks /\ pos = ChunkLo(chunk) /\ flag = TRUE /\ st = <<>>
TraceNext == /\ pos <= ChunkHi(chunk)
             /\ Say(Recs[pos], Fails(Recs[pos]))
             /\ IF pos = ChunkHi(chunk) THEN SayChunk(chunk) ELSE TRUE
             /\ pos' = pos + 1 /\ chunk' = chunk /\ UNCHANGED <<flag, st>>
TraceSpec == TraceInit /\ [][TraceNext]_<<chunk, pos, flag, st>>
=============================================================================
