------------------------------ MODULE MC_Session ------------------------------
(* Exhaustive check of the session specification on an abstract implementation *)
(* with random numbers and remembered results: sessions make settings, draws   *)
(* and computations; the result of a call must be a function of the session's  *)
(* own calls.  How an implementation may go wrong:                             *)
(*   "own"    nothing is shared (satisfies the property)                       *)
(*   "stream" a draw continues a generator that seeding does not reset         *)
(*   "cache"  computed results are remembered across sessions by argument      *)
(*   "full"   they are remembered by argument and all settings (satisfies it)  *)
EXTENDS Session, Integers
CONSTANTS Runs, Settings, Args, MaxCalls, MaxProcesses, Mode
VARIABLES setting,   \* run -> its setting
          drawn,     \* numbers drawn so far by unseeded generators
          cache,     \* remembered computations
          procs      \* processes so far
vars == <<hist, memo, held, setting, drawn, cache, procs>>
Fn(s, a) == <<s, a>>                    \* the true result
Init == SInit /\ setting = [r \in Runs |-> 0] /\ drawn = 0 /\ cache = <<>> /\ procs = 1
Room(r) == Len(HistOf(r)) < MaxCalls
Set(r, s) == Room(r) /\ setting' = [setting EXCEPT ![r] = s] /\ Calls(r, <<"set", s>>, "done") /\ UNCHANGED <<drawn, cache, procs>>
Draw(r, seed) == Room(r) /\ drawn' = drawn + 1 /\ UNCHANGED <<setting, cache, procs>>
   /\ Calls(r, <<"draw", seed>>, IF Mode = "stream" THEN <<seed, drawn>> ELSE <<seed, 0>>)
Key(r, a) == IF Mode = "cache" THEN <<a>> ELSE <<setting[r], a>>
Compute(r, a) == Room(r) /\ UNCHANGED <<setting, drawn, procs>>
   /\ LET hit == Mode \in {"cache", "full"} /\ Key(r, a) \in DOMAIN cache
          res == IF hit THEN cache[Key(r, a)] ELSE Fn(setting[r], a) IN
      /\ cache' = IF Mode \in {"cache", "full"} THEN Put(cache, Key(r, a), res) ELSE cache
      /\ Calls(r, <<"compute", a>>, res)
\* a new process: what was observed stays known, everything else starts anew
Restart == procs < MaxProcesses /\ procs' = procs + 1 /\ hist' = <<>> /\ setting' = [r \in Runs |-> 0] /\ drawn' = 0 /\ cache' = <<>> /\ memo' = memo
Next == held' = held /\ (Restart \/ \E r \in Runs : (\E s \in Settings : Set(r, s)) \/ (\E d \in {1} : Draw(r, d)) \/ (\E a \in Args : Compute(r, a)))
Spec == Init /\ [][Next]_vars
\* whatever happened in between, making the call now would give the remembered result
Stable == \A r \in Runs : Room(r) =>
   /\ \A s \in Settings : Agrees(Append(HistOf(r), <<"set", s>>), "done", LAMBDA a, b : a = b)
   /\ \A a \in Args : Agrees(Append(HistOf(r), <<"compute", a>>),
          IF Mode \in {"cache", "full"} /\ Key(r, a) \in DOMAIN cache THEN cache[Key(r, a)] ELSE Fn(setting[r], a), LAMBDA x, y : x = y)
   /\ Agrees(Append(HistOf(r), <<"draw", 1>>), IF Mode = "stream" THEN <<1, drawn>> ELSE <<1, 0>>, LAMBDA x, y : x = y)
=============================================================================
