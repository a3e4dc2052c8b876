-------------------------------- MODULE Drawing --------------------------------
(***************************************************************************)
(* What plotting draws.  An artist is                                      *)
(*   [k |-> "dot" | "line" | "text", pts, face, edge, marker, line, width, *)
(*    size, z, alpha, label, text, off, said]                              *)
(* A style says some of these, and leaves the others (absent: "" or -1, or *)
(* <<>> for off).  An element is [k |-> "P", "V", "W", "R", "Y" (ray) or   *)
(* "H" (path), name, pts].  A scene is [tx, objs, rx].  "M" and "U" are a  *)
(* point and an object a user wrote: what they draw carries (said) the     *)
(* positional arguments they were plotted with, st.pos.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Plain == [color |-> "", marker |-> "", line |-> "", width |-> -1, size |-> -1, z |-> -1, alpha |-> -1, label |-> "",
          off |-> <<>>, tcolor |-> "", tsize |-> -1, pos |-> <<>>]
Fields == DOMAIN Plain
Or(v, d) == IF v = "" THEN d ELSE v
OrN(v, d) == IF v = -1 THEN d ELSE v
OrSeq(v, d) == IF v = <<>> THEN d ELSE v
(* A setting of its own category and one for everything: both apply.  Of   *)
(* positional arguments, those of the category come first.                 *)
Both(own, all) == [f \in Fields |-> IF f = "pos" THEN own.pos \o all.pos ELSE IF own[f] = Plain[f] THEN all[f] ELSE own[f]]
Clash(own, all) == \E f \in Fields \ {"pos"} : own[f] # Plain[f] /\ all[f] # Plain[f]

Dot(p, st, face, edge, line) ==
  [k |-> "dot", pts |-> <<p>>, face |-> face, edge |-> edge, marker |-> Or(st.marker, "o"), line |-> Or(st.line, line),
   width |-> OrN(st.width, 100), size |-> OrN(st.size, 3600), z |-> OrN(st.z, 1), alpha |-> st.alpha, label |-> st.label,
   text |-> "", off |-> <<0, 0>>, said |-> <<>>]
Line(ps, st, color) ==
  [k |-> "line", pts |-> ps, face |-> color, edge |-> color, marker |-> Or(st.marker, ""), line |-> Or(st.line, "-"),
   width |-> OrN(st.width, 150), size |-> -1, z |-> OrN(st.z, 2), alpha |-> st.alpha, label |-> st.label,
   text |-> "", off |-> <<0, 0>>, said |-> <<>>]
Text(p, name, st) ==
  [k |-> "text", pts |-> <<p>>, face |-> Or(st.tcolor, "black"), edge |-> Or(st.tcolor, "black"), marker |-> "", line |-> "",
   width |-> -1, size |-> OrN(st.tsize, 10), z |-> 3, alpha |-> -1, label |-> "", text |-> name, off |-> OrSeq(st.off, <<0, 0>>), said |-> <<>>]

(* "?" is a colour the specification leaves open: a vertex has its own     *)
(* colours, and those a caller asks for may lose against them.             *)
Body(e, st) ==
  CASE e.k = "P" -> Dot(e.pts[1], st, Or(st.color, "red"), Or(st.color, "red"), "-")
    [] e.k = "V" -> Dot(e.pts[1], st, IF st.color = "" THEN "yellow" ELSE "?", IF st.color = "" THEN "black" ELSE "?", "--")
    [] e.k \in {"W", "Y"} -> Line(e.pts, st, Or(st.color, "blue"))
    [] e.k = "R" -> Line(e.pts, st, Or(st.color, "green"))
    [] e.k = "M" -> [Dot(e.pts[1], st, Or(st.color, "red"), Or(st.color, "red"), "-") EXCEPT !.said = st.pos]
    [] e.k = "U" -> [Line(e.pts, st, Or(st.color, "blue")) EXCEPT !.said = st.pos]
    [] e.k = "H" -> Line(e.pts, st, Or(st.color, "orange"))
Element(e, name, st) == <<Body(e, st)>> \o (IF name = "" THEN <<>> ELSE <<Text(e.pts[1], name, st)>>)

(* Options: which categories, whether named, and four styles.              *)
RECURSIVE Concat(_, _, _)
Concat(f(_), n, i) == IF i > n THEN <<>> ELSE f(i) \o Concat(f, n, i + 1)
Points(ps, on, st, named, dflt) ==
  IF ~on THEN <<>>
  ELSE LET s == [st EXCEPT !.color = Or(st.color, dflt)]
           f(i) == Element(ps[i], IF named THEN ps[i].name ELSE "", s)
       IN Concat(f, Len(ps), 1)
Things(es, on, st) == IF ~on THEN <<>> ELSE LET f(i) == Element(es[i], "", st) IN Concat(f, Len(es), 1)
Drawn(s, o) ==
  Points(s.tx, o.tx = 1, Both(o.txk, o.all), o.named = 1, "blue")
  \o Things(s.objs, o.ob = 1, Both(o.obk, o.all))
  \o Points(s.rx, o.rx = 1, Both(o.rxk, o.all), o.named = 1, "green")
-----------------------------------------------------------------------------
(* The machine: plots on several axes, element by element.                 *)
CONSTANTS Axes, Scenes, Options, MaxPlots
VARIABLES axes,      \* what is on each of them, in order
          todo,      \* elements still to draw, with name and style
          on,        \* the axes of the plot under way (0: none)
          given,     \* what the plot under way has drawn so far
          ret,       \* what the last plot returned
          asked      \* [scene, options, axes before] of the last plot
vars == <<axes, todo, on, given, ret, asked>>
Job(e, name, st) == [e |-> e, name |-> name, st |-> st]
Jobs(s, o) ==
  LET st(k, d) == LET b == Both(k, o.all) IN [b EXCEPT !.color = Or(b.color, d)]
      pt(ps, k, d) == [i \in 1..Len(ps) |-> Job(ps[i], IF o.named = 1 THEN ps[i].name ELSE "", st(k, d))]
  IN (IF o.tx = 1 THEN pt(s.tx, o.txk, "blue") ELSE <<>>)
     \o (IF o.ob = 1 THEN [i \in 1..Len(s.objs) |-> Job(s.objs[i], "", Both(o.obk, o.all))] ELSE <<>>)
     \o (IF o.rx = 1 THEN pt(s.rx, o.rxk, "green") ELSE <<>>)
Count == LET RECURSIVE Sum(_)
             Sum(A) == IF A = {} THEN 0 ELSE LET a == CHOOSE x \in A : TRUE IN Len(axes[a]) + Sum(A \ {a})
         IN Sum(Axes)
None == [s |-> [tx |-> <<>>, objs |-> <<>>, rx |-> <<>>], o |-> [tx |-> 0, ob |-> 0, rx |-> 0, named |-> 0, txk |-> Plain, obk |-> Plain, rxk |-> Plain, all |-> Plain], n |-> 0, before |-> [a \in Axes |-> <<>>], a |-> 0]
Init == axes = [a \in Axes |-> <<>>] /\ todo = <<>> /\ on = 0 /\ given = <<>> /\ ret = <<>> /\ asked = None
Begin(a, s, o) == /\ on = 0 /\ asked.n < MaxPlots
                  /\ todo' = Jobs(s, o) /\ on' = a /\ given' = <<>>
                  /\ asked' = [s |-> s, o |-> o, n |-> asked.n + 1, before |-> axes, a |-> a] /\ UNCHANGED <<axes, ret>>
Step == /\ on # 0 /\ todo # <<>>
        /\ LET j == todo[1] new == Element(j.e, j.name, j.st)
           IN axes' = [axes EXCEPT ![on] = @ \o new] /\ given' = given \o new
        /\ todo' = SubSeq(todo, 2, Len(todo)) /\ UNCHANGED <<on, ret, asked>>
End == on # 0 /\ todo = <<>> /\ ret' = given /\ on' = 0 /\ UNCHANGED <<axes, todo, given, asked>>
Next == (\E a \in Axes, s \in Scenes, o \in Options : Begin(a, s, o)) \/ Step \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Step \/ End)

(* What came of the last plot, once it is over. *)
Over == on = 0 /\ asked.n > 0
Exact == Over => ret = Drawn(asked.s, asked.o)
Added == Over => \A a \in Axes : axes[a] = asked.before[a] \o (IF a = asked.a THEN ret ELSE <<>>)
Sizes == Over => Len(SelectSeq(ret, LAMBDA r : r.k # "text")) =
           (IF asked.o.tx = 1 THEN Len(asked.s.tx) ELSE 0) + (IF asked.o.ob = 1 THEN Len(asked.s.objs) ELSE 0)
           + (IF asked.o.rx = 1 THEN Len(asked.s.rx) ELSE 0)
Names == Over => [i \in 1..Len(SelectSeq(ret, LAMBDA r : r.k = "text")) |-> SelectSeq(ret, LAMBDA r : r.k = "text")[i].text] =
           (IF asked.o.named = 0 THEN <<>>
            ELSE (IF asked.o.tx = 1 THEN [i \in 1..Len(asked.s.tx) |-> asked.s.tx[i].name] ELSE <<>>)
                 \o (IF asked.o.rx = 1 THEN [i \in 1..Len(asked.s.rx) |-> asked.s.rx[i].name] ELSE <<>>))
(* A style of one category leaves the others as they would be without it.  *)
Apart == Over => LET o == asked.o s == asked.s IN
  /\ Drawn(s, [o EXCEPT !.ob = 0, !.rx = 0]) = Drawn(s, [o EXCEPT !.ob = 0, !.rx = 0, !.obk = Plain, !.rxk = Plain])
  /\ Drawn(s, [o EXCEPT !.tx = 0, !.rx = 0]) = Drawn(s, [o EXCEPT !.tx = 0, !.rx = 0, !.txk = Plain, !.rxk = Plain])
  /\ Drawn(s, [o EXCEPT !.ob = 0, !.tx = 0]) = Drawn(s, [o EXCEPT !.ob = 0, !.tx = 0, !.obk = Plain, !.txk = Plain])
Ends == (on # 0) ~> (on = 0)
=============================================================================
