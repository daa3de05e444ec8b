----------------------------- MODULE Gen_Tuner -----------------------------
(* Searches on stand-in studies and trials with chosen suggestions (C26).      *)
EXTENDS GenLib
Counts == <<1, 2, 3, 5, 8, 13, 4, 7, 1, 6, 25, 2, 40, 3, 11, 101>>
JobCat == <<1, 2, -1, 3, 1, 4, 2, -1, 8, 16, 5>>
GpuCat == <<0, 1, 2, 0, 3, 4, 0, 7>>
Epochs == <<1, 5, 5000, 100, 2, 0, 37>>
Delays == << <<1>>, <<0>>, <<3, 1, 0, 2>>, <<0, 4>>, <<2, 2, 5, 0, 1>>, <<5, 1, 1>> >>
ValueCat == << <<"3", "1", "2", "5", "4">>, <<"1", "2", "3">>, <<"9", "8", "7", "6", "5", "4", "3", "2", "1">>, <<"1/2">>, <<"-1", "0", "-2", "1">>, <<"1", "1", "1/1024", "2", "1/1024">>, <<"1/10", "1/100", "5", "1/1000", "1/999", "7">> >>
Names == <<"fastvpinns_optimization", "run 1", "x", "fastvpinns_optimization">>
U(a, s) == << QS(Rnd(a, s, 9) - 4, 2), QS(Rnd(a, s + 1, 9) - 4, 4), QS(Rnd(a, s + 2, 9) + 1, 3), QS(Rnd(a, s + 3, 7) - 3, 2) >>
Base(a, s) == [u |-> U(a, s), f |-> << QS(Rnd(a, s + 4, 5) - 2, 1), QS(Rnd(a, s + 5, 5) - 2, 2), "1/3" >>, eps |-> Cyc(<<"1", "1/2", "3">>, a, s + 6)]
\* suggestions: the ends of every range and values between
Want(a, s) == [n_cells_x |-> Cyc(<<2, 3, 5, 10, 4, 2, 7>>, a, s), n_cells_y |-> Cyc(<<3, 2, 4, 6, 2, 10, 5>>, a, s + 1), n_boundary_points |-> Cyc(<<100, 101, 400, 1000, 250, 103, 999>>, a, s + 2), fe_order |-> Cyc(<<2, 3, 5, 8, 4, 6>>, a, s + 3),
   fe_type |-> Rnd(a, s + 4, 2), quad_order |-> Cyc(<<3, 4, 7, 15, 5, 10>>, a, s + 5), quad_type |-> Rnd(a, s + 6, 2), n_layers |-> Cyc(<<1, 2, 3, 5, 4>>, a, s + 7),
   layer_0 |-> Cyc(<<10, 33, 100, 50, 17>>, a, s + 8), layer_1 |-> Cyc(<<20, 11, 64, 100, 10>>, a, s + 9), layer_2 |-> Cyc(<<30, 12, 10, 99>>, a, s + 10), layer_3 |-> Cyc(<<40, 13, 10, 71>>, a, s + 11), layer_4 |-> Cyc(<<15, 55, 10, 90>>, a, s + 12),
   initial_learning_rate |-> Cyc(<<"1/100000", "1/100", "1/1000", "37/10000", "1/512">>, a, s + 13), decay_steps |-> Cyc(<<1000, 10000, 1001, 4321, 2500>>, a, s + 14), decay_rate |-> Cyc(<<"9/10", "99/100", "19/20", "93/100">>, a, s + 15)]
RunOp(a, s, st) == LET j == Cyc(JobCat, a, s) e == Cyc(Epochs, a, s + 1) IN
   [op |-> "tune.run", study |-> st, n |-> Cyc(Counts, a, s + 2), jobs |-> j, epochs |-> e, gpus |-> Cyc(GpuCat, a, s + 3), delays |-> Cyc(Delays, a, s + 4), values |-> Cyc(ValueCat, a, s + 5), salts |-> <<"a", "b", "c", "d", "e", "f", "g">>,
    wants |-> << Want(a, s + 10) >>, real |-> FALSE, defaults |-> (IF j = -1 THEN <<"n_jobs">> ELSE <<>>) \o (IF e = 5000 THEN <<"n_epochs">> ELSE <<>>)
     \o (IF st = "fastvpinns_optimization" /\ a % 2 = 0 THEN <<"study_name">> ELSE <<>>)] @@ Base(a, s + 60)
TrialOp(a, s, n, e) == [op |-> "tune.trial", epochs |-> e, gpus |-> Cyc(GpuCat, a, s + 3), fresh |-> (Rnd(a, s + 4, 3) # 0), wants |-> [i \in 1..n |-> Want(a, s + 100 * i)], real |-> TRUE] @@ Base(a, s + 60)
Ops(a) == << [op |-> "tune.new"], RunOp(a, 100, Cyc(Names, a, 1)), RunOp(a, 200, Cyc(Names, a, 2)), RunOp(a, 300, Cyc(Names, a, 1)), RunOp(a, 400, Cyc(Names, a, 3)) >>
   \o << TrialOp(a, 1000, 1, Cyc(<<1, 3, 0, 2, 5, 12>>, a, 7)) >>
   \o (IF a % 2 = 0 \/ Thorough THEN << TrialOp(a, 3000, Cyc(<<2, 2, 3>>, a, 8), Cyc(<<1, 2, 4, 0>>, a, 9)) >> ELSE <<>>)
   \o (IF Thorough THEN << TrialOp(a, 5000, 1, Cyc(<<1, 7, 2, 3>>, a, 17)), TrialOp(a, 7000, 2, Cyc(<<1, 2, 3>>, a, 19)) >> ELSE <<>>)
Scenario(a) == [id |-> a, seed |-> Hash(a, 1, 77), ops |-> Ops(a)]
Spec == GenInit /\ [][GenNext(Scenario)]_k
=============================================================================
