------------------------------ MODULE SceneEdits ------------------------------
(***************************************************************************)
(* Scenes are values.  A scene is                                          *)
(*   [tx |-> seq of <<name, point>>, rx |-> same, objs |-> seq of objects] *)
(* (tag: data of a user's subclass, never touched by an edit).             *)
(* An edit is a record; Apply gives the edited scene.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NamesOf(ps) == { ps[i][1] : i \in 1..Len(ps) }
Lookup(ps, n) == LET i == CHOOSE k \in 1..Len(ps) : ps[k][1] = n IN ps[i][2]
Distinct(ps) == \A i, j \in 1..Len(ps) : i # j => ps[i][1] # ps[j][1]

(* Same-named points are replaced where they are, new names are appended   *)
(* in the order they are given.                                            *)
Update(ps, new) ==
  [i \in 1..Len(ps) |-> IF ps[i][1] \in NamesOf(new)
                        THEN <<ps[i][1], Lookup(new, ps[i][1])>> ELSE ps[i]]
  \o SelectSeq(new, LAMBDA e : e[1] \notin NamesOf(ps))

(* map: seq of <<old, new>>; names that are not in the scene are ignored. *)
Rename(ps, map) ==
  [i \in 1..Len(ps) |-> IF ps[i][1] \in NamesOf(map)
                        THEN <<Lookup(map, ps[i][1]), ps[i][2]>> ELSE ps[i]]

(* Objects: <<kind, number>>. *)
Holds(pred, o) ==
  CASE pred = "all" -> TRUE
    [] pred = "none" -> FALSE
    [] pred = "walls" -> o[1] \in {"W", "R"}
    [] pred = "vertices" -> o[1] = "V"
    [] pred = "even" -> o[2] % 2 = 0
    [] pred = "big" -> o[2] > 3

Apply(s, e) ==
  CASE e.op = "with_tx" -> [s EXCEPT !.tx = e.pts]
    [] e.op = "with_rx" -> [s EXCEPT !.rx = e.pts]
    [] e.op = "update_tx" -> [s EXCEPT !.tx = Update(@, e.pts)]
    [] e.op = "update_rx" -> [s EXCEPT !.rx = Update(@, e.pts)]
    [] e.op = "rename_tx" -> [s EXCEPT !.tx = Rename(@, e.map)]
    [] e.op = "rename_rx" -> [s EXCEPT !.rx = Rename(@, e.map)]
    [] e.op = "with_objs" -> [s EXCEPT !.objs = e.objs]
    [] e.op = "add_objs" -> [s EXCEPT !.objs = @ \o e.objs]
    [] e.op = "filter" -> [s EXCEPT !.objs = SelectSeq(@, LAMBDA o : Holds(e.pred, o))]
    [] e.op = "use" -> s          \* tracing, plotting, ...: changes nothing

(* An edit is meaningful when no two points end up with the same name. *)
Meaningful(s, e) ==
  LET t == Apply(s, e) IN Distinct(t.tx) /\ Distinct(t.rx)

-----------------------------------------------------------------------------
(* The machine: a tree of derived scenes. *)
CONSTANTS Edits,       \* edits that may be applied
          MaxScenes
VARIABLES scenes, hist
vars == <<scenes, hist>>

First == [tx |-> <<<<"a", 1>>, <<"b", 2>>>>, rx |-> <<<<"r", 3>>>>,
          objs |-> <<<<"W", 1>>, <<"V", 2>>>>, tag |-> 7]

Init == scenes = <<First>> /\ hist = <<>>
Edit(i, e) ==
  /\ Len(scenes) < MaxScenes
  /\ Meaningful(scenes[i], e)
  /\ scenes' = Append(scenes, Apply(scenes[i], e))
  /\ hist' = Append(hist, [on |-> i, e |-> e])
Next == \E i \in 1..Len(scenes), e \in Edits : Edit(i, e)
Spec == Init /\ [][Next]_vars

UniqueNames == \A i \in 1..Len(scenes) : Distinct(scenes[i].tx) /\ Distinct(scenes[i].rx)
(* Deriving a scene changes no other scene. *)
Persistent == [][\A i \in 1..Len(scenes) : scenes'[i] = scenes[i]]_vars
(* What an edit is not about stays. *)
Frame ==
  [][LET n == Len(scenes') IN n > Len(scenes) =>
       LET h == hist'[Len(hist')]
           s == scenes[h.on] t == scenes'[n] op == h.e.op
       IN /\ t.tag = s.tag
          /\ (op \notin {"with_tx", "update_tx", "rename_tx"} => t.tx = s.tx)
          /\ (op \notin {"with_rx", "update_rx", "rename_rx"} => t.rx = s.rx)
          /\ (op \notin {"with_objs", "add_objs", "filter"} => t.objs = s.objs)
          /\ (op = "rename_tx" => [k \in 1..Len(t.tx) |-> t.tx[k][2]] = [k \in 1..Len(s.tx) |-> s.tx[k][2]])
          /\ (op = "update_tx" => /\ NamesOf(t.tx) = NamesOf(s.tx) \cup NamesOf(h.e.pts)
                                  /\ SubSeq([k \in 1..Len(t.tx) |-> t.tx[k][1]], 1, Len(s.tx))
                                       = [k \in 1..Len(s.tx) |-> s.tx[k][1]])
          /\ (op = "filter" => Len(t.objs) <= Len(s.objs))]_vars
=============================================================================
