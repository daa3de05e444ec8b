------------------------------- MODULE MC_Ckpt -------------------------------
(* Training interrupted at any point: steps, saving under two names, a crash    *)
(* (the model is gone) followed by a new model, loading into a new or a live     *)
(* model.  The parameters are always those of the history that leads to them     *)
(* through the checkpoints, as if training had never been interrupted.           *)
(* Refuted variants: Lost = "moments" (only the parameters are saved), "count"   *)
(* (the step counter starts anew), "weights" (the optimiser only).               *)
EXTENDS Train
CONSTANTS MaxT, MaxActs, Lost
VARIABLES w, ad, hist, saved, acts
cvars == <<spaces, tables, w, ad, hist, saved, acts>>
Gs == {RI(-1), RQ(1, 2)}
Lr == [lr0 |-> RQ(1, 10), sched |-> TRUE, steps |-> 2, sden |-> 1, rate |-> RQ(1, 2), stair |-> TRUE]
W0 == RQ(3, 2)
Init == FInit /\ w = W0 /\ ad = Adam0(1) /\ hist = <<>> /\ saved = <<>> /\ acts = 0
Act == acts < MaxActs /\ acts' = acts + 1 /\ UNCHANGED <<spaces, tables>>
Step(g) == Act /\ Len(hist) < MaxT /\ UNCHANGED saved
   /\ LET n == TLCEval(AdamNext(ad, <<g>>, <<R0>>)) IN ad' = n /\ w' = RSub(w, Moves(n, Rate(Lr, n.t - 1))[1]) /\ hist' = Append(hist, g)
Put(f, a, b) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN b ELSE f[x]]
Save(name) == Act /\ saved' = Put(saved, name, [w |-> w, ad |-> ad, hist |-> hist]) /\ UNCHANGED <<w, ad, hist>>
Crash == Act /\ hist # <<>> /\ w' = W0 /\ ad' = Adam0(1) /\ hist' = <<>> /\ UNCHANGED saved
Load(name) == Act /\ name \in DOMAIN saved /\ UNCHANGED saved
   /\ LET s == saved[name] IN
      /\ w' = (IF Lost = "weights" THEN w ELSE s.w) /\ hist' = s.hist
      /\ ad' = (IF Lost = "moments" THEN Adam0(1) ELSE IF Lost = "count" THEN [s.ad EXCEPT !.t = 0] ELSE s.ad)
Next == (\E g \in Gs : Step(g)) \/ (\E name \in {"p", "q"} : Save(name) \/ Load(name)) \/ Crash
Spec == Init /\ [][Next]_cvars
Replay(h) == FoldLeft(LAMBDA acc, g : Bind(AdamNext(acc.ad, <<g>>, <<R0>>), LAMBDA n : [ad |-> n, w |-> RSub(acc.w, Moves(n, Rate(Lr, n.t - 1))[1])]), [ad |-> Adam0(1), w |-> W0], h).w
Uninterrupted == w = Replay(hist)
=============================================================================
