----------------------------- MODULE Tr_Config -----------------------------
(* Binds Config to recorded calls (C23).                                       *)
EXTENDS Config, TraceBase
VARIABLE objs      \* what exists: the last accepted request of every kind of call
vars == <<objs, l, bad>>
View == <<l>>
Init == objs = <<>> /\ BInit
TStart == IsOp("start") /\ objs' = <<>> /\ Consume({})
TCall == IsOp("cfg.call")
   /\ objs' = (IF Accepts(E.call, E.opts) THEN (E.call :> E.opts) @@ objs ELSE objs)
   /\ Consume(IF Accepts(E.call, E.opts) THEN C("C23", "every combination of documented values is accepted", E.got)
              ELSE C("C23", "an undocumented option value is refused with an error", ~E.ok /\ ~E.got))
Next == (TBroken /\ UNCHANGED objs) \/ TStart \/ TCall \/ (Finish /\ UNCHANGED objs)
Spec == Init /\ [][Next]_vars
=============================================================================
