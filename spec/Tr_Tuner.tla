----------------------------- MODULE Tr_Tuner -----------------------------
(* Binds Tuner and Metrics to recorded searches and trials (C26).              *)
EXTENDS Tuner, Metrics, TraceBase, SequencesExt
VARIABLE search     \* the search of the last run
vars == <<search, l, bad>>
View == <<l>>
None == <<>>
Init == search = None /\ BInit
Pass == UNCHANGED search
TStart == IsOp("start") /\ search' = None /\ Consume({})
TNew == IsOp("tune.new") /\ search' = None /\ Consume({})
\* the recorded steps of a search, one after the other
Entry(acc, e) == LET s == acc.s IN
   IF e.e = "start" THEN [s |-> Started(s, e.i), f |-> acc.f
        \cup C("C26", "each trial is run once, not more than requested, and not more at once than requested", MayStart(s, e.i))
        \cup C("C26", "every trial trains for the requested number of epochs", e.epochs = s.epochs)
        \cup C("C26", "every trial runs on a device that exists", e.dev \in Devices(s.gpus))]
   ELSE [s |-> Ended(s, e.i, [v |-> e.v, params |-> e.params]), f |-> acc.f \cup C("C26", "a trial that ends was running", MayEnd(s, e.i))]
Earlier(es) == [i \in {es[k].i : k \in 1..Len(es)} |-> LET e == es[CHOOSE k \in 1..Len(es) : es[k].i = i] IN [v |-> e.v, params |-> e.params]]
Ran(ev) == FoldLeft(Entry, [s |-> NewSearch(ev.n, ev.jobs, ev.epochs, ev.gpus, Earlier(ev.earlier)), f |-> {}], ev.log)
TRun == IsOp("tune.run") /\ LET a == TLCEval(Ran(E)) IN /\ search' = a.s
   /\ Consume(a.f \cup (IF ~E.ok THEN C("C26", "the search runs", FALSE) ELSE
        C("C26", "exactly the requested number of trials", Complete(a.s)) \cup C("C26", "the best settings of the study are returned", Complete(a.s) => MayReturn(a.s, E.ret))))
Is(name, c) == C("C26", name, c)
Names(p) == {"n_cells_x", "n_cells_y", "n_boundary_points", "fe_order", "fe_type", "quad_order", "quad_type", "n_layers", "initial_learning_rate", "decay_steps", "decay_rate"} \subseteq DOMAIN p
            /\ \A i \in 0..(p.n_layers - 1) : ("layer_" \o ToString(i)) \in DOMAIN p
TrialFails(r, epochs) == LET p == r.suggested IN
   IF ~Names(p) THEN Is("every setting is suggested by the trial", FALSE) ELSE
   IF r.geos # 1 \/ r.spaces # 1 \/ r.models # 1 THEN Is("every trial builds one mesh, one space and one network", FALSE) ELSE
   Is("the mesh has the suggested cells and boundary points", r.nxs = p.n_cells_x + 1 /\ r.nys = p.n_cells_y + 1 /\ r.ncells = CellCount(p) /\ AllClose(r.lim, <<R0, R1, R0, R1>>, RPow2(-30))
        /\ r.nb = [i \in 1..4 |-> SideCount(p)] /\ r.nbd = 4 * SideCount(p))
   \cup Is("the space has the suggested order, basis and quadrature", r.nshape = p.fe_order * p.fe_order /\ r.nquad = p.quad_order * p.quad_order /\ r.fe_type = p.fe_type /\ r.quad_type = p.quad_type
        /\ r.edge = (p.quad_type = "gauss-jacobi") /\ r.pre = <<CellCount(p), p.fe_order * p.fe_order, p.quad_order * p.quad_order>>)
   \cup Is("the network has the suggested layers", r.dims = Layers(p))
   \cup Is("the learning rate follows the suggested schedule", LET ks == <<0, 1, 2, 5>> IN \A i \in 1..4 : RClose(r.lr[i], RateAt(p, ks[i]), RMul(RateAt(p, ks[i]), RPow2(-18))))
   \cup Is("the boundary term is weighted by the trial's weight", \A i \in 1..Len(r.betas) : r.betas[i] = RI(Beta))
   \cup Is("trained for the requested number of epochs", r.steps = epochs)
   \cup Is("the value is the relative L2 error of the final network", Bind(L2Rel(r.u, r.p), LAMBDA w : RClose(r.value, w, RMul(RAdd(w, RPow2(-10)), RPow2(-14)))))
RECURSIVE AllTrials(_, _, _)
AllTrials(rs, i, epochs) == IF i > Len(rs) THEN {} ELSE TLCEval(TrialFails(rs[i], epochs)) \cup AllTrials(rs, i + 1, epochs)
TTrial == IsOp("tune.trial") /\ Pass
   /\ Consume(IF ~E.ok THEN C("C26", "every trial returns its value", FALSE) ELSE Then(C("C26", "every trial returns its value", Len(E.res) = E.n), AllTrials(E.res, 1, E.epochs)))
Next == (TBroken /\ Pass) \/ TStart \/ TNew \/ TRun \/ TTrial \/ (Finish /\ Pass)
Spec == Init /\ [][Next]_vars
=============================================================================
