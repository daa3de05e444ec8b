------------------------------ MODULE Tr_Train ------------------------------
(* Binds Train to recorded histories of models: construction, predictions,     *)
(* training steps of several models in any interleaving (C20, C21, C22).       *)
EXTENDS Train, TraceBase
VARIABLES models,     \* object -> model: tensors, parameters in force, Adam state, schedule
          ckpts,      \* checkpoint name -> the parameters and Adam state saved last under that name
          cfgs        \* configuration -> the model as it was when its configuration was read
vars == <<spaces, tables, models, ckpts, cfgs, l, bad>>
View == <<l>>
Init == FInit /\ models = <<>> /\ ckpts = <<>> /\ cfgs = <<>> /\ BInit
Pass == UNCHANGED <<spaces, tables, models, ckpts, cfgs>>
TStart == IsOp("start") /\ models' = <<>> /\ ckpts' = <<>> /\ cfgs' = <<>> /\ UNCHANGED <<spaces, tables>> /\ Consume({})
F32(md) == md.dtype = "float32"
Rel(md) == IF F32(md) THEN RPow2(-13) ELSE RPow2(-36)
Tensors(ev) == [v |-> ev.v, gx |-> ev.gx, gy |-> ev.gy, pts |-> ev.pts, f |-> ev.f, bp |-> ev.bp, bv |-> ev.bv, sp |-> ev.sp, sv |-> ev.sv]
Col(a) == TLCEval([i \in 1..Len(a) |-> a[i][1]])
NewModel(ev) == TLCEval([kind |-> ev.kind, eq |-> ev.eq, act |-> ev.act, dims |-> ev.dims, hard |-> ev.hard, dtype |-> ev.dtype, lr |-> ev.lr, given |-> Tensors(ev), ginv |-> ev.ginv,
   v |-> ev.v, gx |-> ev.gx, gy |-> ev.gy, pts |-> ev.pts, f |-> ev.f, bp |-> ev.bp, bv |-> Col(ev.bv), sp |-> ev.sp, sv |-> Col(ev.sv),
   w |-> ev.w, inv |-> ev.inv, resumed |-> FALSE, built |-> FALSE, ad |-> Adam0(NParams(ev.dims) + (IF ev.kind = "inverse" THEN 1 ELSE 0))])
Shapes(dims) == [i \in 1..(Len(dims) - 1) |-> <<dims[i], dims[i + 1]>>]
Structure(ev) == C("C22", "as many layers and widths as configured", ev.shapes = Shapes(ev.dims) /\ IsArr(ev.w, <<NParams(ev.dims)>>))
TModel == IsOp("train.model")
   /\ (IF E.ok /\ IsArr(E.w, <<NParams(E.dims)>>) THEN models' = FPut(models, E.obj, NewModel(E)) /\ UNCHANGED <<spaces, tables, ckpts, cfgs>> ELSE Pass)
   /\ Consume(IF ~E.ok THEN C(Prop, "a model with supported options is built", FALSE) ELSE
              Structure(E) \cup C("C20", "a constant-coefficient inverse model starts from the given coefficient", E.kind = "inverse" => E.inv = E.ginv) \cup (IF IsArr(E.w, <<NParams(E.dims)>>) THEN {} ELSE C(Prop, "the model has the configured layers", FALSE)))
Cur == models[E.obj]
Known == E.obj \in DOMAIN models
\* the parameters after an event are the ones recorded
Now(md, ev) == [md EXCEPT !.w = ev.w, !.inv = ev.inv]
Sound(ev) == ev.ok /\ IsArr(ev.w, <<Len(models[ev.obj].w)>>) /\ IsRat(ev.inv)
TSet == IsOp("train.set") /\ Known /\ Sound(E) /\ models' = FPut(models, E.obj, Now(Cur, E)) /\ UNCHANGED <<spaces, tables, ckpts, cfgs>> /\ Consume({})
(*-------------------------------- C22 -------------------------------------*)
Out(md, net, mode, x0) == Bind(AV(mode, x0), LAMBDA x : Bind(Run(net, mode, md.act, x), LAMBDA r :
   IF md.kind = "hard" THEN Bind(Constr(md, mode, x), LAMBDA c : <<RAdd(RMul(c.m[1], r.out.z[1]), c.a[1])>>) ELSE r.out.z))
RowsMatch(md, xs, ys) == Bind(<<Net(md.dims, md.w), Net(md.dims, VAbs(md.w))>>, LAMBDA n :
   \A i \in 1..Len(xs) : Bind(<<Out(md, n[1], "real", xs[i]), Out(md, n[2], "abs", xs[i])>>, LAMBDA o :
      \A j \in 1..Len(o[1]) : RClose(ys[i][j], o[1][j], RMul(Rel(md), RAdd(o[2][j], RPow2(-900))))))
TPredict == IsOp("train.predict") /\ Known /\ Pass
   /\ Consume(IF On("C31") THEN C("C31", "a model made from a configuration predicts what the configured network predicts with those weights", Cur.built => (E.ok /\ IsArr(E.y, <<Len(E.x), Cur.dims[Len(Cur.dims)]>>) /\ RowsMatch(Cur, E.x, E.y))) ELSE IF On("C27") THEN C("C27", "a restored network predicts with the saved parameters", Cur.resumed => (E.ok /\ IsArr(E.y, <<Len(E.x), Cur.dims[Len(Cur.dims)]>>) /\ RowsMatch(Cur, E.x, E.y))) ELSE IF ~On("C22") THEN {} ELSE IF ~E.ok THEN C("C22", "points are evaluated", FALSE) ELSE
      Then(C("C22", "one output row per point", IsArr(E.y, <<Len(E.x), Cur.dims[Len(Cur.dims)]>>)),
           C("C22", "each output row is the configured network (and constraint) applied to its own input row", RowsMatch(Cur, E.x, E.y))))
(*-------------------------------- C27 -------------------------------------*)
TSave == IsOp("train.save") /\ Known /\ UNCHANGED <<spaces, tables, models, cfgs>>
   /\ (IF Sound(E) THEN ckpts' = FPut(ckpts, E.key, [w |-> Cur.w, inv |-> Cur.inv, ad |-> Cur.ad]) ELSE ckpts' = ckpts)
   /\ Consume(C("C27", "saving succeeds and leaves the model as it was", Sound(E) /\ E.w = Cur.w /\ E.inv = Cur.inv))
TLoad == IsOp("train.load") /\ Known /\ UNCHANGED <<spaces, tables, ckpts, cfgs>>
   /\ (IF Sound(E) /\ E.key \in DOMAIN ckpts THEN models' = FPut(models, E.obj, [Now(Cur, E) EXCEPT !.ad = ckpts[E.key].ad, !.resumed = TRUE]) ELSE models' = models)
   /\ Consume(C("C27", "loading brings back every saved parameter", Sound(E) /\ E.key \in DOMAIN ckpts /\ E.w = ckpts[E.key].w /\ E.inv = ckpts[E.key].inv))
(*-------------------------------- C31 -------------------------------------*)
TConfig == IsOp("train.config") /\ Known /\ UNCHANGED <<spaces, tables, models, ckpts>>
   /\ (IF Sound(E) THEN cfgs' = FPut(cfgs, E.key, Cur) ELSE cfgs' = cfgs)
   /\ Consume(C("C31", "reading the configuration leaves the model as it was", Sound(E) /\ E.w = Cur.w /\ E.inv = Cur.inv))
Rebuilt(b, s, ev) == TLCEval([b EXCEPT !.w = ev.w, !.inv = ev.inv, !.ginv = ev.ginv, !.resumed = FALSE, !.built = TRUE, !.ad = Adam0(NParams(b.dims) + (IF b.kind = "inverse" THEN 1 ELSE 0)),
   !.act = IF ev.edit = "act" THEN ev.act ELSE b.act, !.lr = IF ev.edit = "lr" THEN ev.lr ELSE b.lr, !.hard = IF ev.edit = "hard" /\ b.kind = "hard" THEN ev.hard ELSE b.hard])
TRebuild == IsOp("train.rebuild") /\ UNCHANGED <<spaces, tables, ckpts, cfgs>>
   /\ LET known == E.key \in DOMAIN cfgs /\ E.src \in DOMAIN models
          good == E.ok /\ known /\ IsArr(E.w, <<Len(models[E.src].w)>>) /\ IsRat(E.inv) IN
      (IF ~good THEN models' = models /\ Consume(C("C31", "a model is made from the configuration and takes the weights of the other", FALSE))
       ELSE LET b == cfgs[E.key] s == models[E.src] IN
            models' = FPut(models, E.obj, Rebuilt(b, s, E))
            /\ Consume(C("C31", "the model made from the configuration has the same layers and types", E.shapes = Shapes(b.dims) /\ E.dtypes = <<b.dtype>> /\ E.count = 0)
               \cup C("C31", "the model made from the configuration takes the weights of the other", E.w = s.w /\ E.inv = s.inv)
               \cup C("C31", "making a model from the configuration leaves the other model as it was", E.fw = s.w /\ E.finv = s.inv)
               \cup C("C31", "the configuration holds the coefficient as it was", b.kind = "inverse" => (E.ginv = b.inv \/ E.ginv = b.ginv))))
(*---------------------------- C20 and C21 ---------------------------------*)
One(s) == IF Len(s) = 1 THEN s[1] ELSE "none"
CloseTo(md, a, want, scale) == RClose(One(a), want, RMul(Rel(md), RAdd(scale, RPow2(-900))))
LossesOk(md, ev, re, ab) == CloseTo(md, ev.pde, re.pde, ab.pde) /\ CloseTo(md, ev.bnd, re.bnd, ab.bnd) /\ CloseTo(md, ev.tot, re.tot, ab.tot) /\ (HasSensors(md) => CloseTo(md, ev.sens, re.sens, ab.sens))
StepLosses(md, ev, re, ab) ==
   LET ok(a, want, scale) == RClose(One(a), want, RMul(Rel(md), RAdd(scale, RPow2(-900)))) IN
   C("C20", "the PDE loss is the sum over all cells for the parameters of this step", ok(ev.pde, re.pde, ab.pde))
   \cup C("C20", "the boundary loss is the mean squared mismatch at the Dirichlet points, zero with hard constraints", ok(ev.bnd, re.bnd, ab.bnd))
   \cup C("C20", "the sensor loss is the mean squared mismatch at the sensors", HasSensors(md) => ok(ev.sens, re.sens, ab.sens))
   \cup C("C20", "the total is PDE + beta * boundary + 10 * sensor, with this step's beta", ok(ev.tot, re.tot, ab.tot))
Params(md, ev) == TLCEval([n \in DOMAIN ev.p \cup {"inv"} |-> IF n = "inv" THEN md.inv ELSE ev.p[n]])
All(md, w, inv) == IF md.kind = "inverse" THEN Append(w, inv) ELSE w
\* relm: Keras takes the powers of beta_1, beta_2 in single precision (about 7e-6 of a move)
Moved(md, ev, ad) ==
   Bind(Rate(md.lr, md.ad.t), LAMBDA rate :
   Bind(<<All(md, md.w, md.inv), All(md, ev.w, ev.inv), Moves(ad, rate), MoveTol(ad, rate)>>, LAMBDA q :
     \A i \in 1..Len(q[1]) :
        LET relm == RPow2(-15)  relw == IF F32(md) THEN RPow2(-22) ELSE RPow2(-50) IN
        RClose(q[2][i], RSub(q[1][i], q[3][i]), RSum(<<q[4][i], RMul(relm, RAbs(q[3][i])), RMul(relw, RAdd(RAbs(q[1][i]), RAbs(q[3][i])))>>))))
TStep == IsOp("train.step") /\ Known /\ UNCHANGED <<spaces, tables, ckpts, cfgs>>
   /\ LET res == TLCEval(IF ~(E.ok /\ Sound(E)) THEN <<>> ELSE
                 Bind(Params(Cur, E), LAMBDA p : Bind(<<Evaluate(Cur, "real", E.beta, p), Evaluate(Cur, "abs", E.beta, p)>>, LAMBDA q :
                 Bind(AdamNext(Cur.ad, q[1].grad, VScale(Rel(Cur), q[2].grad)), LAMBDA ad :
                    <<ad, StepLosses(Cur, E, q[1], q[2]) \cup C("C21", "every trainable quantity moves by one Adam update for the gradient of the total loss at the scheduled rate", Moved(Cur, E, ad))
                          \cup (IF Cur.built THEN C("C31", "a model made from a configuration trains as a new model with those weights", LossesOk(Cur, E, q[1], q[2]) /\ Moved(Cur, E, ad)) ELSE {})
                          \cup (IF Cur.resumed THEN C("C27", "a resumed model continues the saved history: parameters, moments and schedule", Moved(Cur, E, ad)) ELSE {})>>)))) IN
      IF res = <<>> THEN models' = models /\ Consume(C(Prop, "a training step is performed", FALSE))
      ELSE models' = FPut(models, E.obj, [Now(Cur, E) EXCEPT !.ad = res[1]]) /\ Consume(res[2])
TRecheck == IsOp("train.recheck") /\ Known /\ Pass
   /\ Consume(C("C20", "the tensors and parameters given at construction are unchanged", E.ok /\ Tensors(E) = Cur.given /\ E.ginv = Cur.ginv /\ E.lr = Cur.lr /\ E.dims = Cur.dims)
              \cup C("C31", "models and configurations made from one another stay apart", Sound(E) /\ E.w = Cur.w /\ E.inv = Cur.inv /\ E.ginv = Cur.ginv /\ Tensors(E) = Cur.given)
              \cup C("C21", "only training steps move the parameters", Sound(E) /\ E.w = Cur.w /\ E.inv = Cur.inv))
\* a datum that is not finite makes the losses that depend on it, and the total, not finite; the others are unaffected
TNonFinite == IsOp("train.nonfinite") /\ Pass
   /\ Consume(IF ~E.ok THEN C("C20", "a training step is performed", FALSE) ELSE
        LET fin(s) == Len(s) = 1 /\ IsRat(s[1])  lost == Len(E.tot) = 1 /\ ~IsRat(E.tot[1])  free == E.where = "bv" /\ E.kind = "hard" IN
        C("C20", "the PDE loss is not finite exactly if the data of some cell is not", fin(E.pde) <=> E.where # "f")
        \cup C("C20", "the boundary loss is not finite exactly if some Dirichlet value is not (and counts)", fin(E.bnd) <=> (E.where # "bv" \/ free))
        \cup C("C20", "the sensor loss is not finite exactly if some sensor value is not", E.kind \in {"inverse", "domain"} => (fin(E.sens) <=> E.where # "sv"))
        \cup C("C20", "the total is not finite if one of its parts is not", lost <=> ~free))
TAttention == IsOp("train.attention") /\ Pass
   /\ Consume(C("C31", "a model made from the configuration of a network with attention predicts what that network predicts",
        E.ok /\ Len(E.ya) = Len(E.yb) /\ \A i \in 1..Len(E.ya) : Len(E.ya[i]) = Len(E.yb[i]) /\ \A j \in 1..Len(E.ya[i]) : RClose(E.yb[i][j], E.ya[i][j], RMul(RPow2(-36), RAdd(R1, RAbs(E.ya[i][j]))))))
\* events on an object whose construction has already been reported
TLost == l <= Len(Trace) /\ ~Broken /\ Trace[l].op \in {"train.set", "train.predict", "train.step", "train.recheck", "train.save", "train.load", "train.config"} /\ (Trace[l].obj \notin DOMAIN models) /\ Pass /\ Consume({})
TSetBad == IsOp("train.set") /\ Known /\ ~Sound(E) /\ Pass /\ Consume(C(Prop, "the parameters can be assigned", FALSE))
Next == (TBroken /\ Pass) \/ TStart \/ TModel \/ TSet \/ TSetBad \/ TPredict \/ TStep \/ TSave \/ TLoad \/ TConfig \/ TRebuild \/ TRecheck \/ TNonFinite \/ TAttention \/ TLost \/ (Finish /\ Pass)
Spec == Init /\ [][Next]_vars
=============================================================================
