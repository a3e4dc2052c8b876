------------------------------ MODULE GenDrawing ------------------------------
(* Random sequences of plots for replay. *)
EXTENDS Drawing, TLC, Json
CONSTANTS Depth, NScenes
VARIABLE hist
Pick(S) == RandomElement({ x \in S : Len(hist) >= 0 })
Maybe(n, S, d) == IF Pick(1..n) = 1 THEN Pick(S) ELSE d
Words(n) == LET k == Pick(0..3) IN IF k = 0 THEN <<>> ELSE [i \in 1..(k - 1) |-> Pick(IF n = 1 THEN {"one", "two", "three"} ELSE {"four", "two"})]
Own(text) == [color |-> Maybe(3, {"purple", "cyan", "red"}, ""), marker |-> "", line |-> Maybe(4, {"--", ":", "-."}, ""), width |-> Maybe(4, {50, 300}, -1),
        size |-> -1, z |-> Maybe(4, {4, 9}, -1), alpha |-> Maybe(4, {25, 50}, -1), label |-> Maybe(4, {"here", "there"}, ""),
        off |-> IF text THEN Maybe(3, {<<250, 0>>, <<0, 500>>, <<-250, 1000>>}, <<>>) ELSE <<>>,
        tcolor |-> IF text THEN Maybe(4, {"purple", "red"}, "") ELSE "", tsize |-> IF text THEN Maybe(4, {7, 14}, -1) ELSE -1, pos |-> Words(1)]
Dots(st) == [st EXCEPT !.marker = Maybe(4, {"s", "^", "D"}, ""), !.size = Maybe(3, {2000, 6400}, -1)]
All == [Plain EXCEPT !.z = Maybe(3, {5, 8}, -1), !.alpha = Maybe(3, {75}, -1), !.label = Maybe(4, {"any"}, ""), !.width = Maybe(5, {200}, -1), !.pos = Words(2)]
Free(st, all) == [f \in Fields |-> IF f # "pos" /\ all[f] # Plain[f] THEN Plain[f] ELSE st[f]]
Flag(n) == IF Pick(1..n) = 1 THEN 0 ELSE 1
GenInit == Init /\ hist = <<>>
GenNext ==
  \E t \in {Dots(Own(TRUE))}, b \in {Own(FALSE)}, r \in {Dots(Own(TRUE))}, all \in {IF Pick(1..2) = 1 THEN All ELSE Plain} :
    /\ hist' = Append(hist,
         IF Pick(1..5) = 1
         THEN [t |-> "one", a |-> Pick(1..2), s |-> Pick(1..NScenes), n |-> Pick(0..9), o |-> [st |-> Free(t, Plain), named |-> Flag(2)]]
         ELSE [t |-> "scene", a |-> Pick(1..2), s |-> Pick(1..NScenes), n |-> 0,
               o |-> [tx |-> Flag(3), ob |-> Flag(3), rx |-> Flag(3), named |-> Flag(3),
                      txk |-> Free(t, all), obk |-> Free(b, all), rxk |-> Free(r, all), all |-> all]])
    /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
Dump == Len(hist) = Depth => PrintT("HIST|" \o ToJson([hist |-> hist]))
=============================================================================
