------------------------------- MODULE MC_Adam -------------------------------
(* Two models trained in any interleaving, with gradients from a small set:    *)
(* the parameter of each model is a function of the gradients of its own steps *)
(* alone; a step moves against the accumulated gradient by at most a few times *)
(* the learning rate of that step, the first one by just the learning rate;    *)
(* the staircase schedule is constant within periods and both schedules agree  *)
(* at their ends.  The variant in which the models share one optimiser state   *)
(* (Shared) is refuted.                                                        *)
EXTENDS Train
CONSTANTS MaxT, Shared
VARIABLES w, ad, hist, last
avars == <<spaces, tables, w, ad, hist, last>>
Ms == {"a", "b"}
Gs == {RI(-1), R0, RQ(1, 2)}
Lr == [a |-> [lr0 |-> RQ(1, 10), sched |-> TRUE, steps |-> 2, sden |-> 1, rate |-> RQ(1, 2), stair |-> TRUE],
       b |-> [lr0 |-> RQ(1, 10), sched |-> TRUE, steps |-> 2, sden |-> 1, rate |-> RQ(1, 2), stair |-> FALSE]]
Init == FInit /\ w = [m \in Ms |-> R0] /\ ad = [m \in Ms |-> Adam0(1)] /\ hist = [m \in Ms |-> <<>>] /\ last = R0
Key(m) == IF Shared THEN "a" ELSE m
Step(m, g) == /\ Len(hist["a"]) + Len(hist["b"]) < MaxT
   /\ LET n == TLCEval(AdamNext(ad[Key(m)], <<g>>, <<R0>>))  d == TLCEval(Moves(n, Rate(Lr[m], n.t - 1))[1]) IN
      /\ ad' = [ad EXCEPT ![Key(m)] = n] /\ w' = [w EXCEPT ![m] = RSub(@, d)] /\ last' = d
   /\ hist' = [hist EXCEPT ![m] = Append(@, g)] /\ UNCHANGED <<spaces, tables>>
Next == \E m \in Ms, g \in Gs : Step(m, g)
Spec == Init /\ [][Next]_avars
Replay(m, h) == FoldLeft(LAMBDA acc, g : Bind(AdamNext(acc.ad, <<g>>, <<R0>>), LAMBDA n : [ad |-> n, w |-> RSub(acc.w, Moves(n, Rate(Lr[m], n.t - 1))[1])]), [ad |-> Adam0(1), w |-> R0], h).w
OwnHistory == \A m \in Ms : w[m] = Replay(m, hist[m])
Limited == RLeq(RAbs(last), RQ(1, 2))
First == \A m \in Ms : Len(hist[m]) = 1 /\ hist[m][1] # R0 => RClose(RAbs(w[m]), RQ(1, 10), RPow2(-20)) /\ RSgn(w[m]) = -RSgn(hist[m][1])
Schedule == \A t \in 0..8 : LET a == Rate(Lr["a"], t) b == Rate(Lr["b"], t) IN
   /\ a = Rate(Lr["a"], 2 * (t \div 2)) /\ RLeq(b, RMul(a, RAdd(R1, RPow2(-80)))) /\ (t % 2 = 0 => RClose(a, b, RPow2(-80))) /\ RLt(Rate(Lr["b"], t + 1), b)
\* a period of five halves of a step: two periods are five steps
HalfSteps == LET c(st) == [lr0 |-> RQ(1, 10), sched |-> TRUE, steps |-> 5, sden |-> 2, rate |-> RQ(1, 2), stair |-> st] IN
   /\ [t \in 0..7 |-> RDiv(RQ(1, 10), Rate(c(TRUE), t))] = [t \in 0..7 |-> RI(CASE t < 3 -> 1 [] t < 5 -> 2 [] OTHER -> 4)]
   /\ \A t \in 0..4 : RClose(Rate(c(FALSE), t + 5), RDiv(Rate(c(FALSE), t), RI(4)), RPow2(-80)) /\ RLt(Rate(c(FALSE), t + 1), Rate(c(FALSE), t))
=============================================================================
