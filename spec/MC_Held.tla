------------------------------- MODULE MC_Held -------------------------------
(* What the caller holds stays as it is: exhaustive check on an abstract       *)
(* implementation with references.  The caller passes arrays in, asks for      *)
(* results and keeps both; the implementation                                  *)
(*   "fresh"    answers with new arrays                                        *)
(*   "share"    answers with references that nobody writes (allowed)           *)
(*   "buffer"   answers with one array that it fills again for the next answer *)
(*   "inplace"  normalises an array it is given where it lies                  *)
(*   "late"     keeps a reference to the argument and updates it later         *)
EXTENDS Session, Integers
CONSTANTS Values, MaxRefs, Mode
VARIABLES heap,     \* reference -> content
          obj,      \* reference of what the object was given last (0: nothing)
          buf       \* reference of its result buffer (0: none)
mvars == <<hist, memo, held, heap, obj, buf>>
Norm(v) == IF v > 1 THEN 1 ELSE v
Init == SInit /\ heap = <<>> /\ obj = 0 /\ buf = 0
Fresh == Len(heap) + 1
\* the caller's array, as it passed it in, and afterwards
Give(v) == Len(heap) < MaxRefs /\ obj' = Fresh /\ buf' = buf
   /\ held' = Put(held, "r", Put(HeldOf("r"), Fresh, v))
   /\ heap' = [Append(heap, v) EXCEPT ![Fresh] = IF Mode = "inplace" THEN Norm(@) ELSE @]
Ask == obj # 0 /\ UNCHANGED obj /\
   IF Mode = "buffer" /\ buf # 0
   THEN buf' = buf /\ heap' = [heap EXCEPT ![buf] = Norm(heap[obj])] /\ held' = Put(held, "r", IF buf \in DOMAIN HeldOf("r") THEN HeldOf("r") ELSE Put(HeldOf("r"), buf, Norm(heap[obj])))
   ELSE IF Mode = "share"
   THEN UNCHANGED <<heap, buf>> /\ held' = Put(held, "r", Put(HeldOf("r"), obj, heap[obj]))
   ELSE Len(heap) < MaxRefs /\ buf' = Fresh /\ held' = Put(held, "r", Put(HeldOf("r"), Fresh, Norm(heap[obj])))
        /\ heap' = [Append(heap, Norm(heap[obj])) EXCEPT ![obj] = IF Mode = "late" THEN Norm(@) ELSE @]
Next == UNCHANGED <<hist, memo>> /\ ((\E v \in Values : Give(v)) \/ Ask)
Spec == Init /\ [][Next]_mvars
Unchanged == Kept("r", heap)
=============================================================================
