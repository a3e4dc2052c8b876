------------------------------- MODULE MCObjects -------------------------------
EXTENDS Objects
W(n) == [k |-> "W", leaves |-> <<<<<<n, 0>>, <<0, n>>>>>>]
R(n) == [k |-> "R", leaves |-> <<<<<<n, 1>>, <<1, n>>>>, n * 7>>]
V(n) == [k |-> "V", leaves |-> <<<<n, 2>>>>]
P(n) == [k |-> "P", leaves |-> <<<<n, 3>>>>]
MCFirsts == { [tx |-> t, rx |-> r, objs |-> b] : t \in {<<>>, <<<<"z", P(1)>>, <<"a", P(2)>>>>}, r \in {<<<<"y", P(3)>>, <<"b", P(4)>>, <<"c", P(5)>>>>},
              b \in {<<>>, <<W(1), W(2)>>, <<R(1), R(2), R(3)>>, <<W(1), R(2)>>, <<V(1), V(2)>>, <<V(1)>>} }
Q(op) == [op |-> op, i |-> 0, c |-> <<>>, o |-> W(9)]
MCQueries == { Q(op) : op \in {"stack", "stack2", "through", "from_stack", "from_walls", "rebuild", "pass", "raise", "names", "pairs", "drop", "turn"} }
  \cup { [Q("get") EXCEPT !.i = i] : i \in -1..3 } \cup { [Q("part") EXCEPT !.i = i] : i \in 0..2 }
  \cup { [Q("interact") EXCEPT !.c = c] : c \in {<<>>, <<0>>, <<1, 0>>, <<0, 1, 0>>} } \cup { [Q("add") EXCEPT !.o = o] : o \in {W(9), R(9), V(9)} }
=============================================================================
