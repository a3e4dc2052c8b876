---------------------------- MODULE GenSceneEdits ----------------------------
(* Random behaviours of SceneEdits, printed for replay (tlc -simulate). *)
EXTENDS SceneEdits, TLC, Json, Randomization

Names == {"a", "b", "c", "tx", "r_1", "Z"}
(* d: anything of the state, or TLC would evaluate the choice only once. *)
Pick1(S, d) == RandomElement({ x \in S : d >= 0 })
RECURSIVE RndPts(_, _, _)
RndPts(k, used, d) ==
  IF k = 0 THEN <<>>
  ELSE LET n == Pick1(Names \ used, d) IN <<<<n, Pick1(1..9, d)>>>> \o RndPts(k - 1, used \cup {n}, d)
RECURSIVE RndObjs(_, _)
RndObjs(k, d) == IF k = 0 THEN <<>> ELSE <<<<Pick1({"W", "V", "R"}, d), Pick1(1..6, d)>>>> \o RndObjs(k - 1, d)
RECURSIVE RndMap(_, _, _, _)
RndMap(k, olds, news, d) ==
  IF k = 0 THEN <<>>
  ELSE LET o == Pick1(Names \ olds, d) n == Pick1(Names \ news, d)
       IN <<<<o, n>>>> \o RndMap(k - 1, olds \cup {o}, news \cup {n}, d)
RndEdit(op, d) ==
  CASE op \in {"with_tx", "with_rx", "update_tx", "update_rx"} -> [op |-> op, pts |-> RndPts(Pick1({0, 1, 2, 3}, d), {}, d)]
    [] op \in {"rename_tx", "rename_rx"} -> [op |-> op, map |-> RndMap(Pick1({0, 1, 2, 3}, d), {}, {}, d)]
    [] op \in {"with_objs", "add_objs"} -> [op |-> op, objs |-> RndObjs(Pick1({0, 1, 2, 3}, d), d)]
    [] op = "filter" -> [op |-> op, pred |-> Pick1({"all", "none", "walls", "vertices", "even", "big"}, d)]
    [] op = "use" -> [op |-> op]
Ops == {"with_tx", "with_rx", "update_tx", "update_rx", "rename_tx", "rename_rx",
        "with_objs", "add_objs", "filter", "use"}
GenNext == \E op \in Ops : \E e \in {RndEdit(op, Len(hist))} : Edit(Pick1(1..Len(scenes), Len(hist)), e)
GenSpec == Init /\ [][GenNext]_vars
Dump == Len(scenes) = MaxScenes => PrintT("HIST|" \o ToJson(hist))
=============================================================================
