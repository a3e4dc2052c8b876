------------------------------- MODULE MCDrawing -------------------------------
EXTENDS Drawing
P(k, n, x) == [k |-> k, name |-> n, pts |-> <<<<x, 0>>>>]
W(k, x) == [k |-> k, name |-> "", pts |-> <<<<x, 0>>, <<x, 1>>>>]
MCScenes == { [tx |-> t, objs |-> b, rx |-> r] : t \in {<<>>, <<P("P", "a", 1), P("M", "b", 2)>>},
              b \in {<<>>, <<W("W", 1), W("U", 2), P("V", "", 3)>>}, r \in {<<P("P", "c", 5)>>} }
Red == [Plain EXCEPT !.color = "red", !.pos = <<"a">>]
Thin == [Plain EXCEPT !.z = 7, !.label = "x", !.pos = <<"b", "a">>]
MCOptions == { [tx |-> t, ob |-> b, rx |-> r, named |-> n, txk |-> k1, obk |-> k2, rxk |-> Plain, all |-> k3] :
               t \in {0, 1}, b \in {0, 1}, r \in {0, 1}, n \in {0, 1}, k1 \in {Plain, Red}, k2 \in {Plain, Red}, k3 \in {Plain, Thin} }
=============================================================================
