------------------------------ MODULE MC_Files ------------------------------
(* Histories of helper calls into two folders holding a user's own files.      *)
(* Invariants: nothing is ever lost or changed by a call for another name, and *)
(* every requested result can be found under its documented name with the      *)
(* content of its last request.  Two faulty writers are refuted: Clean empties *)
(* the folder first, Fixed ignores the requested name.                         *)
EXTENDS Files
CONSTANTS MaxSteps, Dirs, Texts, Mode
VARIABLES asked,    \* requests so far: set of [targets, step]
          step
vars == <<files, asked, step>>
User == "notes.txt"
Base == [dir : Dirs, prefix : {"", "a"}, epoch : {1, 10}, optimized : BOOLEAN]
Calls == {[helper |-> h, dir |-> d, name |-> n, prefix |-> p, epoch |-> e, optimized |-> FALSE] :
            h \in {"loss", "array", "test", "inverse_param", "residual", "mesh"}, d \in Dirs, n \in Texts, p \in {"", "a"}, e \in {1, 10}}
Init == files = [q \in {Join(d, User) : d \in Dirs} |-> 0] /\ asked = {} /\ step = 0
In(d, q) == q \in {Join(d, n) : n \in UNION {Names(c) : c \in Calls} \cup {User}}
Do(c) ==
   CASE Mode = "clean" -> files' = [q \in {r \in DOMAIN files : ~In(c.dir, r)} \cup Targets(c) |-> IF q \in Targets(c) THEN step + 1 ELSE files[q]]
     [] Mode = "fixed" -> files' = [q \in DOMAIN files \cup {Join(c.dir, "plot.png")} |-> IF q = Join(c.dir, "plot.png") THEN step + 1 ELSE files[q]]
     [] OTHER -> Write(c, step + 1)
Next == step < MaxSteps /\ \E c \in Calls : Do(c) /\ step' = step + 1 /\ asked' = asked \cup {[targets |-> Targets(c), at |-> step + 1]}
Spec == Init /\ [][Next]_vars
NothingLost == \A d \in Dirs : Join(d, User) \in DOMAIN files /\ files[Join(d, User)] = 0
\* the file of a request holds the content of the last request that named it
Found == \A a \in asked : \A t \in a.targets : t \in DOMAIN files /\ files[t] >= a.at /\ (\E b \in asked : t \in b.targets /\ files[t] = b.at)
OnlyAsked == \A q \in DOMAIN files : files[q] = 0 \/ (\E a \in asked : q \in a.targets)
Steps == [][\E c \in Calls : Allowed(files, files', Targets(c))]_vars
=============================================================================
