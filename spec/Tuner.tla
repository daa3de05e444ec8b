------------------------------- MODULE Tuner -------------------------------
(***************************************************************************)
(* Hyper-parameter search.  A search is a record: how many trials, how     *)
(* many may run at once (-1 : any number), the devices, which trials run   *)
(* and which are done, with their value and their settings.  A study that  *)
(* is searched again goes on: earlier results count for the best.          *)
(***************************************************************************)
EXTENDS Rat
NewSearch(n, jobs, epochs, gpus, earlier) == [n |-> n, jobs |-> jobs, epochs |-> epochs, gpus |-> gpus, started |-> 0, running |-> {}, done |-> earlier]
MayStart(s, i) == /\ s.started < s.n /\ ~(i \in s.running) /\ ~(i \in DOMAIN s.done)
                  /\ s.jobs = -1 \/ Cardinality(s.running) < s.jobs
Started(s, i) == [s EXCEPT !.started = @ + 1, !.running = @ \cup {i}]
MayEnd(s, i) == i \in s.running
Ended(s, i, r) == [s EXCEPT !.running = @ \ {i}, !.done = (i :> r) @@ @]
\* the search may return: every trial was run and none is left running
Complete(s) == s.started = s.n /\ s.running = {}
Best(done, i) == i \in DOMAIN done /\ \A j \in DOMAIN done : RLeq(done[i].v, done[j].v)
MayReturn(s, params) == Complete(s) /\ \E i \in DOMAIN s.done : Best(s.done, i) /\ s.done[i].params = params
\* devices: none without accelerators, otherwise one that exists
Devices(k) == IF k = 0 THEN {"none"} ELSE {"GPU:" \o ToString(i) : i \in 0..(k - 1)}
(*------------------------------- one trial --------------------------------*)
\* what a trial builds from its settings p
Layers(p) == <<2>> \o [i \in 1..p.n_layers |-> p["layer_" \o ToString(i - 1)]] \o <<1>>
CellCount(p) == p.n_cells_x * p.n_cells_y
SideCount(p) == p.n_boundary_points \div 4
RECURSIVE RPowI(_, _)
RPowI(a, k) == IF k = 0 THEN R1 ELSE RMul(a, RPowI(a, k - 1))
RateAt(p, k) == RMul(p.initial_learning_rate, RPowI(p.decay_rate, k))
Beta == 10
=============================================================================
