---------------------------- MODULE MC_DataParams ----------------------------
(* Histories of parameter conversions: two handlers of different precision,    *)
(* user functions that return a fresh or a shared dictionary, updates by the   *)
(* user.  A dictionary is an object in a heap; a value is <<number, type>>.    *)
(* InPlace = TRUE converts the returned dictionary itself (what the code did   *)
(* before fix C17): TLC finds that the user's dictionary is changed.           *)
EXTENDS Data
CONSTANTS Keys, Nums, MaxSteps, InPlace
VARIABLES heap,     \* object -> dictionary
          shared,   \* the user's shared object
          results,  \* sequence of [h, obj, want] : what each conversion returned and should hold
          failed,   \* a conversion was refused
          steps
qvars == <<spaces, tables, handlers, shown, heap, shared, results, failed, steps>>
Dicts == [Keys -> Nums \X {"py"}]
TypeOf(h) == IF h = "h" THEN "float32" ELSE "float64"
Conv(v, t) == <<v[1], t>>
CanConv(v, t) == v[2] \in {"py", t}      \* a tensor of another type cannot be converted again
New(d) == Append(heap, d)
Init == DInit /\ heap \in {<<d>> : d \in Dicts} /\ shared = 1 /\ results = <<>> /\ failed = FALSE /\ steps = 0
\* the user updates the shared dictionary
Edit == \E key \in Keys, n \in Nums : /\ heap' = [heap EXCEPT ![shared][key] = <<n, "py">>]
                                      /\ UNCHANGED <<results, failed>>
Convert == \E h \in {"h", "k"}, src \in {"shared", "fresh"} :
   \E d \in (IF src = "fresh" THEN Dicts ELSE {heap[shared]}) :
     LET t == TypeOf(h)
         out == [key \in Keys |-> Conv(d[key], t)] IN
     IF \E key \in Keys : ~CanConv(d[key], t) THEN failed' = TRUE /\ UNCHANGED <<heap, results>>
     ELSE /\ IF InPlace /\ src = "shared"
             THEN heap' = [heap EXCEPT ![shared] = out] /\ results' = Append(results, [h |-> h, obj |-> shared, want |-> out])
             ELSE heap' = New(out) /\ results' = Append(results, [h |-> h, obj |-> Len(heap) + 1, want |-> out])
          /\ UNCHANGED failed
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Edit \/ Convert) /\ UNCHANGED <<spaces, tables, handlers, shown, shared>>
Spec == Init /\ [][Next]_qvars
Untouched == \A key \in Keys : heap[shared][key][2] = "py"
Stable == \A i \in 1..Len(results) : heap[results[i].obj] = results[i].want
Accepted == ~failed
=============================================================================
