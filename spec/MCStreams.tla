------------------------------- MODULE MCStreams -------------------------------
EXTENDS Streams
R(k, lo, hi, f, a, z) == [kind |-> k, lo |-> lo, hi |-> hi, filt |-> f, approx |-> a, salt |-> z, b |-> 1, cells |-> <<1, 2>>]
MCRequests == { R(k, 0, 1, 2, a, 1) : k \in {"paths", "found", "acc"}, a \in {0, 1} } \cup { R("found", 1, 2, 1, 1, 3), R("acc", 1, 0, 2, 0, 0), R("paths", 2, 2, 2, 0, 0) }
FewRequests == { R("found", 0, 1, 2, 1, 1), R("acc", 0, 1, 2, 0, 1), R("paths", 1, 2, 1, 1, 3), R("acc", 1, 0, 2, 0, 0) }
MCFirsts == { [tx |-> <<<<"a", 1>>, <<"b", 2>>>>, rx |-> <<<<"a", 3>>>>, objs |-> <<<<"W", 1>>, <<"V", 3>>>>],
              [tx |-> <<<<"a", 0>>>>, rx |-> <<>>, objs |-> <<>>] }
MCEdits == { [ed |-> "rx", n |-> "a", x |-> 5], [ed |-> "rx", n |-> "c", x |-> 1], [ed |-> "onlytx", n |-> "z", x |-> 4], [ed |-> "keep", n |-> "", x |-> 1], [ed |-> "add", n |-> "", x |-> 2] }
=============================================================================
