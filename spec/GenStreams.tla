------------------------------- MODULE GenStreams -------------------------------
(* Random schedules of streams for replay. *)
EXTENDS Streams, TLC, Json
CONSTANTS Depth, NScenes
VARIABLE hist
Pick(S) == RandomElement({ x \in S : Len(hist) >= 0 })
Kinds == <<"pairs", "paths", "paths", "found", "found", "acc", "acc", "rxgrid", "txgrid">>
Opened == { n \in 1..Len(hist) : hist[n].t = "open" }
Req(k) == LET w == Pick({<<0, 0>>, <<0, 1>>, <<1, 1>>, <<0, 2>>, <<1, 2>>, <<2, 2>>, <<1, 0>>})
          IN [kind |-> k, lo |-> w[1], hi |-> w[2], filt |-> Pick({0, 1, 2, 2}), approx |-> Pick({0, 1}), salt |-> Pick(0..4), b |-> Pick({0, 7}),
              cells |-> [i \in 1..Pick(1..3) |-> Pick(0..9)]]
Base == [t |-> "", i |-> 0, j |-> 0, s |-> 0, n |-> 0, th |-> 0, ed |-> "", name |-> "", x |-> 0]
AnyFirsts == {0}
GenInit == Init /\ hist = <<>>
GenNext ==
  \E c \in {Pick(1..20)}, i \in {IF Opened = {} THEN 0 ELSE Pick(Opened)}, j \in {IF Opened = {} THEN 0 ELSE Pick(Opened)},
     s \in {Pick(1..NScenes)}, r \in {Req(Kinds[Pick(1..9)])} :
    /\ hist' = Append(hist,
         IF i = 0 \/ c <= 5 THEN [Base EXCEPT !.t = "open", !.s = s] @@ [r |-> r]
         ELSE CASE c <= 14 -> [Base EXCEPT !.t = "take", !.i = i, !.n = Pick(1..4), !.th = Pick({0, 1, 2, 3})]
                [] c = 15 -> [Base EXCEPT !.t = "race", !.i = i, !.j = j, !.n = Pick(1..9)]
                [] c = 16 -> [Base EXCEPT !.t = "whole", !.s = s] @@ [r |-> [r EXCEPT !.kind = Pick({"acc", "rxgrid", "txgrid"})]]
                [] c = 17 -> [Base EXCEPT !.t = "drop", !.i = i]
                [] c = 18 -> [Base EXCEPT !.t = "flag", !.x = Pick({0, 1})]
                [] OTHER -> [Base EXCEPT !.t = "edit", !.s = s, !.ed = Pick({"tx", "rx", "tx", "rx", "onlytx", "onlyrx", "add", "keep"}),
                                         !.name = Pick({"a", "b", "tx", "rx"}), !.x = Pick(0..9)])
    /\ UNCHANGED <<now, streams, edits>>
GenSpec == GenInit /\ [][GenNext]_<<now, streams, edits, hist>>
Dump == Len(hist) = Depth => PrintT("HIST|" \o ToJson([hist |-> hist]))
=============================================================================
