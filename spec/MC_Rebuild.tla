------------------------------ MODULE MC_Rebuild ------------------------------
(* Models made from the configurations of models (C31).  A model is its           *)
(* constructor arguments, the cell of its trainable coefficient in a heap, and     *)
(* its other weights; a configuration is what the arguments were.  Every history    *)
(* of building, reading configurations, rebuilding with and without replaced        *)
(* entries, taking weights and training.                                            *)
(*   Same    a model made from a configuration is the function the arguments say    *)
(*   Apart   no two models, and no configuration, share a trainable coefficient     *)
(* Refuted variants: Fault = "forget" (the constraint is not in the configuration),  *)
(* "live" (the configuration holds the model's own coefficient), "late" (the         *)
(* configuration holds the arguments by reference: replaced entries reach the first). *)
EXTENDS Naturals, FiniteSets
CONSTANTS MaxModels, MaxActs, Fault
Names == 1..MaxModels
Acts == {"tanh", "relu"}
Cons == {"none", "cut"}
VARIABLES models,   \* name -> [args, want, cells (tracked), w]
          heap,     \* coefficient cells
          cfgs,     \* set of configurations read: [args, want, co, owner]
          acts
vars == <<models, heap, cfgs, acts>>
Init == models = <<>> /\ heap = <<>> /\ cfgs = {} /\ acts = 0
Put(f, a, b) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN b ELSE f[x]]
NewCell == Cardinality(DOMAIN heap) + 1
Step1 == acts < MaxActs /\ acts' = acts + 1
Build(n, act, con) == Step1 /\ n \notin DOMAIN models /\ UNCHANGED cfgs
   /\ heap' = Put(heap, NewCell, 0)
   /\ models' = Put(models, n, [args |-> [act |-> act, con |-> con], want |-> [act |-> act, con |-> con], cells |-> {NewCell}, w |-> 0])
Read(n) == Step1 /\ n \in DOMAIN models /\ UNCHANGED <<models, heap>>
   /\ cfgs' = cfgs \cup {[args |-> IF Fault = "forget" THEN [models[n].args EXCEPT !.con = "none"] ELSE models[n].args, want |-> models[n].want,
                          co |-> IF Fault = "live" THEN models[n].cells ELSE {}, owner |-> n]}
Rebuild(n, c, edit) == Step1 /\ n \notin DOMAIN models /\ UNCHANGED cfgs
   /\ LET a == IF edit = "keep" THEN c.args ELSE [c.args EXCEPT !.act = edit]
          v == IF edit = "keep" THEN c.want ELSE [c.want EXCEPT !.act = edit]
          m == Put(models, n, [args |-> a, want |-> v, cells |-> {NewCell} \cup c.co, w |-> 0]) IN
      /\ models' = IF Fault = "late" THEN [m EXCEPT ![c.owner].args = a] ELSE m
      /\ heap' = Put(heap, NewCell, 0)
Take(n, s) == Step1 /\ n # s /\ {n, s} \subseteq DOMAIN models /\ UNCHANGED <<heap, cfgs>>
   /\ models' = [models EXCEPT ![n].w = models[s].w]
Train(n) == Step1 /\ n \in DOMAIN models /\ UNCHANGED cfgs
   /\ models' = [models EXCEPT ![n].w = (@ + 1) % 3] /\ heap' = [x \in DOMAIN heap |-> IF x \in models[n].cells THEN (heap[x] + 1) % 3 ELSE heap[x]]
Next == \/ \E n \in Names, a \in Acts, c \in Cons : Build(n, a, c)
        \/ \E n \in Names : Read(n) \/ Train(n)
        \/ \E n \in Names, c \in cfgs, e \in Acts \cup {"keep"} : Rebuild(n, c, e)
        \/ \E n, s \in Names : Take(n, s)
Spec == Init /\ [][Next]_vars
Same == \A n \in DOMAIN models : models[n].args = models[n].want
Apart == \A n, s \in DOMAIN models : n # s => models[n].cells \cap models[s].cells = {}
=============================================================================
