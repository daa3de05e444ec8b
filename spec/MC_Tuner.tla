------------------------------ MODULE MC_Tuner ------------------------------
(* A pool of workers runs the trials of one search: every schedule, every      *)
(* assignment of values.  The pool must be a search in the sense of Tuner.     *)
(* Faulty variants: a worker looks at the counter and takes the next trial in  *)
(* two steps; one worker too many; the last result is returned, not the best.  *)
EXTENDS Tuner
CONSTANTS N, Jobs, Earlier, Values, Fault
VARIABLES counter,    \* trials handed out
          pc,         \* worker -> "idle", "saw" or the trial it runs
          last,       \* last trial that finished
          s,          \* the search as the specification sees it
          ok,         \* the specification allowed every step so far
          ret         \* trial returned
vars == <<counter, pc, last, s, ok, ret>>
AnyNumber == -1
Cap == IF Jobs = -1 THEN N ELSE Jobs
Workers == 1..(IF Fault = "wide" THEN Cap + 1 ELSE Cap)
None == 1000
Set(i) == [lr |-> i]
Past == [i \in 0..(Earlier - 1) |-> [v |-> RI(1), params |-> Set(i)]]
Init == counter = 0 /\ pc = [w \in Workers |-> "idle"] /\ last = None /\ s = NewSearch(N, Jobs, 1, 0, Past) /\ ok = TRUE /\ ret = None
Hand(w) == /\ pc' = [pc EXCEPT ![w] = ToString(counter)] /\ counter' = counter + 1
           /\ ok' = (ok /\ MayStart(s, Earlier + counter)) /\ s' = Started(s, Earlier + counter) /\ UNCHANGED <<last, ret>>
Take(w) == Fault # "late" /\ pc[w] = "idle" /\ counter < N /\ Hand(w)
Look(w) == Fault = "late" /\ pc[w] = "idle" /\ counter < N /\ pc' = [pc EXCEPT ![w] = "saw"] /\ UNCHANGED <<counter, last, s, ok, ret>>
Grab(w) == pc[w] = "saw" /\ Hand(w)
Report(w) == /\ ~(pc[w] \in {"idle", "saw"}) /\ \E v \in Values : LET i == Earlier + (CHOOSE q \in 0..(counter - 1) : ToString(q) = pc[w]) IN
                /\ ok' = (ok /\ MayEnd(s, i)) /\ s' = Ended(s, i, [v |-> RI(v), params |-> Set(i)]) /\ last' = i
             /\ pc' = [pc EXCEPT ![w] = "idle"] /\ UNCHANGED <<counter, ret>>
Return == /\ ret = None /\ counter >= N /\ (\A w \in Workers : pc[w] = "idle") /\ DOMAIN s.done # {}
          /\ \E i \in DOMAIN s.done : (IF Fault = "last" /\ last # None THEN i = last ELSE Best(s.done, i))
                /\ ret' = i /\ ok' = (ok /\ MayReturn(s, Set(i)))
          /\ UNCHANGED <<counter, pc, last, s>>
Next == (\E w \in Workers : Take(w) \/ Look(w) \/ Grab(w) \/ Report(w)) \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
IsSearch == ok
AtMost == Jobs = -1 \/ Cardinality(s.running) <= Jobs
Finishes == <>(N + Earlier = 0 \/ ret # None)
=============================================================================
