------------------------------ MODULE GenObjects ------------------------------
(* Random questions and edits for replay (on random scenes). *)
EXTENDS Objects, TLC, Json
CONSTANTS Depth
VARIABLE hist
Pick(S) == RandomElement({ x \in S : Len(hist) >= 0 })
Asking == {"stack", "stack2", "through", "part", "from_stack", "from_walls", "get", "interact", "rebuild", "pass", "raise", "names", "pairs"}
GenInit == scene = <<>> /\ asked = <<>> /\ hist = <<>>
GenNext ==
  /\ \E e \in {Pick(1..4)} :
       hist' = Append(hist, [op |-> IF e = 1 THEN Pick({"add", "drop", "turn"}) ELSE Pick(Asking), i |-> Pick(-3..8),
                             c |-> [j \in 1..Pick(0..4) |-> Pick(0..9)], m |-> Pick({"plain", "jit"})])
  /\ UNCHANGED <<scene, asked>>
GenSpec == GenInit /\ [][GenNext]_<<scene, asked, hist>>
Dump == Len(hist) = Depth => PrintT("HIST|" \o ToJson([hist |-> hist]))
=============================================================================
