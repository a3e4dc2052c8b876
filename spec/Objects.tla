-------------------------------- MODULE Objects --------------------------------
(***************************************************************************)
(* Objects as trees of numbers, and the scenes that hold them.             *)
(*                                                                         *)
(* An object is [k |-> kind, leaves |-> its arrays, in order]; an array is *)
(* a number, a sequence of numbers, ...  A stack of objects of one kind is *)
(* the object of that kind whose every array holds those of all of them    *)
(* along a new axis.  A scene is [tx, rx |-> <<name, object>>s, objs].     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* Shapes, by kind: what can be stacked with what. *)
Shape(o) == <<o.k, [i \in 1..Len(o.leaves) |-> IF o.k = "H" /\ i = 1 THEN Len(o.leaves[1]) ELSE 0]>>
Alike(os) == \A i \in 1..Len(os) : Shape(os[i]) = Shape(os[1])
SameKind(os) == \A i \in 1..Len(os) : os[i].k = os[1].k

Stack(os) == [k |-> os[1].k, leaves |-> [l \in 1..Len(os[1].leaves) |-> [i \in 1..Len(os) |-> os[i].leaves[l]]]]
(* Along the second axis, for kinds all of whose arrays have one. *)
Second(a) == [d \in 1..Len(a[1]) |-> [i \in 1..Len(a) |-> a[i][d]]]
Deep(o) == o.k \in {"P", "V", "W"}
Stack2(os) == [k |-> os[1].k, leaves |-> [l \in 1..Len(os[1].leaves) |-> Second(Stack(os).leaves[l])]]
Count(st) == Len(st.leaves[1])
At(st, i) == [k |-> st.k, leaves |-> [l \in 1..Len(st.leaves) |-> st.leaves[l][i]]]
Unstack(st) == [i \in 1..Count(st) |-> At(st, i)]
AsWall(o) == [k |-> "W", leaves |-> <<o.leaves[1]>>]
Clamp(i, n) == IF i < 0 THEN 1 ELSE IF i >= n THEN n ELSE i + 1        \* indices of the code start at 0

(* Every number of an object, one up. *)
RECURSIVE Up(_, _)
Up(a, depth) == IF depth = 0 THEN a + 1000 ELSE [i \in 1..Len(a) |-> Up(a[i], depth - 1)]
Depths(k) == CASE k \in {"P", "V"} -> <<1>> [] k = "W" -> <<2>> [] k \in {"R", "T", "H"} -> <<2, 0>>
Raised(o) == [o EXCEPT !.leaves = [l \in 1..Len(o.leaves) |-> Up(o.leaves[l], Depths(o.k)[l])]]
RaisedAll(ps) == [i \in 1..Len(ps) |-> <<ps[i][1], Raised(ps[i][2])>>]

(* What can be asked of a scene.  An answer is [scene, out]: the scene it  *)
(* leads to and what is returned; out.err: it must be refused.             *)
Nothing == <<>>
Refuse(s) == [scene |-> s, out |-> Nothing, err |-> TRUE]
Return(s, x) == [scene |-> s, out |-> x, err |-> FALSE]
Only(os) == [tx |-> <<>>, rx |-> <<>>, objs |-> os]
Ask(s, q) ==
  LET os == s.objs n == Len(os)
  IN CASE q.op = "stack" -> IF n = 0 \/ ~Alike(os) THEN Refuse(s) ELSE Return(s, Stack(os))
       [] q.op = "stack2" -> IF n = 0 \/ ~Alike(os) \/ ~Deep(os[1]) THEN Refuse(s) ELSE Return(s, Stack2(os))
       [] q.op = "through" -> IF n = 0 \/ ~Alike(os) THEN Refuse(s) ELSE Return(s, Unstack(Stack(os)))
       [] q.op = "part" -> IF n = 0 \/ ~Alike(os) THEN Refuse(s) ELSE Return(s, At(Stack(os), (q.i % n) + 1))
       [] q.op = "from_stack" -> IF n = 0 \/ ~Alike(os) THEN Refuse(s) ELSE Return(Only(Unstack(Stack(os))), Nothing)
       [] q.op = "from_walls" -> Return(Only([i \in 1..n |-> AsWall(os[i])]), Nothing)
       [] q.op = "get" -> IF n = 0 \/ ~SameKind(os) THEN Refuse(s) ELSE Return(s, os[Clamp(q.i, n)])
       [] q.op = "interact" -> Return(s, [j \in 1..Len(q.c) |-> os[q.c[j] + 1]])
       [] q.op \in {"rebuild", "pass"} -> Return(s, Nothing)
       [] q.op = "raise" -> Return([tx |-> RaisedAll(s.tx), rx |-> RaisedAll(s.rx), objs |-> [i \in 1..n |-> Raised(os[i])]], Nothing)
       [] q.op = "names" -> Return(s, [i \in 1..Len(s.tx) |-> s.tx[i][1]])
       [] q.op = "pairs" -> Return(s, [x \in 1..(Len(s.tx) * Len(s.rx)) |->
                              <<s.tx[((x - 1) \div Len(s.rx)) + 1][1], s.rx[((x - 1) % Len(s.rx)) + 1][1]>>])
       [] q.op = "add" -> Return([s EXCEPT !.objs = Append(@, q.o)], Nothing)
       [] q.op = "drop" -> Return([s EXCEPT !.objs = IF n = 0 THEN @ ELSE SubSeq(@, 1, n - 1)], Nothing)
       [] q.op = "turn" -> Return([s EXCEPT !.objs = IF n = 0 THEN @ ELSE SubSeq(@, 2, n) \o <<@[1]>>], Nothing)

-----------------------------------------------------------------------------
CONSTANTS Firsts, Queries, MaxAsked
VARIABLES scene, asked
Init == scene \in Firsts /\ asked = <<>>
Next == /\ Len(asked) < MaxAsked
        /\ \E q \in Queries :
             LET a == Ask(scene, q)
             IN /\ (q.op = "interact" => \A j \in 1..Len(q.c) : q.c[j] < Len(scene.objs))
                /\ (q.op = "from_walls" => \A j \in 1..Len(scene.objs) : scene.objs[j].k \notin {"P", "V", "H"})
                /\ scene' = a.scene /\ asked' = Append(asked, [q |-> q, a |-> a, s |-> scene])
Spec == Init /\ [][Next]_<<scene, asked>>
Last == asked[Len(asked)]
Asks(op) == asked # <<>> /\ Last.q.op = op /\ ~Last.a.err
(* Nothing is lost on the way through a stack, in whichever order. *)
LosesNothing == /\ (Asks("through") => Last.a.out = scene.objs)
                /\ (Asks("from_stack") => scene.objs = Last.s.objs)
                /\ (Asks("stack") => Unstack(Last.a.out) = scene.objs /\ \A i \in 1..Len(scene.objs) : At(Last.a.out, i) = scene.objs[i])
                /\ (Asks("stack2") => [l \in 1..Len(Last.a.out.leaves) |-> Second(Last.a.out.leaves[l])] = Stack(scene.objs).leaves)
(* Only edits change a scene. *)
Edits == {"from_stack", "from_walls", "raise", "add", "drop", "turn"}
Still == [][asked'[Len(asked')].q.op \notin Edits => scene' = scene]_<<scene, asked>>
RefusalsAreStill == asked # <<>> /\ Last.a.err => scene = Last.s
Found == Asks("get") => \E i \in 1..Len(scene.objs) : Last.a.out = scene.objs[i] /\ (Last.q.i \in 0..(Len(scene.objs) - 1) => i = Last.q.i + 1 \/ scene.objs[i] = scene.objs[Last.q.i + 1])
NamesStay == asked # <<>> => LET ks(ps) == [i \in 1..Len(ps) |-> ps[i][1]] IN
   Last.q.op \notin {"from_stack", "from_walls"} => ks(scene.tx) = ks(Last.s.tx) /\ ks(scene.rx) = ks(Last.s.rx)
=============================================================================
