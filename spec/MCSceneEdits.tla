---------------------------- MODULE MCSceneEdits ----------------------------
(* Exhaustive: every history of a few representative edits. *)
EXTENDS SceneEdits
MCEdits == {
  [op |-> "with_tx", pts |-> <<<<"b", 5>>>>],
  [op |-> "with_rx", pts |-> <<>>],
  [op |-> "update_tx", pts |-> <<<<"c", 6>>, <<"a", 7>>>>],
  [op |-> "update_rx", pts |-> <<<<"r", 8>>, <<"a", 9>>>>],
  [op |-> "rename_tx", map |-> <<<<"a", "b">>, <<"b", "a">>>>],
  [op |-> "rename_tx", map |-> <<<<"a", "c">>>>],
  [op |-> "rename_rx", map |-> <<<<"r", "s">>, <<"zz", "y">>>>],
  [op |-> "with_objs", objs |-> <<<<"R", 4>>>>],
  [op |-> "add_objs", objs |-> <<<<"V", 5>>, <<"W", 1>>>>],
  [op |-> "filter", pred |-> "even"],
  [op |-> "filter", pred |-> "walls"],
  [op |-> "use"] }
=============================================================================
