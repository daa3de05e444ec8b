------------------------------ MODULE Gen_Train ------------------------------
(* Histories of one to three models: construction from given tensors,          *)
(* predictions, steps with changing boundary factor and parameters.            *)
EXTENDS Gen_FEcat
Eqs == <<"poisson", "poisson_inverse", "cd2d", "cd2d_inverse", "cd2d_inverse_domain", "helmholtz">>
FEqs == <<"cd2d", "helmholtz", "poisson">>
Kinds == <<"std", "hard", "inverse", "domain">>
EqFor(kind, a, s) == CASE kind \in {"std", "hard"} -> Cyc(FEqs, a, s) [] kind = "inverse" -> Cyc(<<"poisson_inverse", "cd2d_inverse">>, a, s) [] kind = "domain" -> "cd2d_inverse_domain"
Acts == <<"tanh", "square", "sigmoid", "tanh", "relu", "linear">>
Hidden == << <<3>>, <<2, 3>>, <<4>>, <<>>, <<3, 2>>, <<1, 2>>, <<2, 2, 2>>, <<5>>, <<8>>, <<6, 4>>, <<3, 3, 3, 3>>, <<2, 2>>, [i \in 1..10 |-> 1 + (i % 2)] >>
WideHidden == << <<20, 20, 20>>, <<3>>, <<9, 1, 9>>, <<5, 5, 5, 5, 5, 5>>, <<4, 3>>, <<>>, <<30>>, <<7, 7, 2>>, <<2, 16>>, <<40, 3, 40>>, <<10, 10>>, <<1, 1, 1, 1, 1, 1, 1, 1>>, <<2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2>>, [i \in 1..21 |-> 1] >>
PCat == <<"1", "1/2", "-1", "3/2", "-7/4", "2", "-1/8", "3">>
Par0(a, s) == [eps |-> Cyc(PCat, a, s), b_x |-> Cyc(PCat, a, s + 1), b_y |-> Cyc(PCat, a, s + 2), c |-> Cyc(PCat, a, s + 3), k |-> Cyc(PCat, a, s + 4), inv |-> "1"]
Par(a, s) == Coincide(Par0(a, s), Hash(a, s, 11) % 22)
Betas == <<"10", "1", "1/2", "100", "7/2", "0", "3">>
LrCat == <<[lr0 |-> "0.01", sched |-> TRUE, steps |-> 2, rate |-> "0.5", stair |-> TRUE], [lr0 |-> "0.01", sched |-> TRUE, steps |-> 2, rate |-> "0.5", stair |-> FALSE],
   [lr0 |-> "0.001", sched |-> FALSE, steps |-> 1, rate |-> "0.5", stair |-> TRUE], [lr0 |-> "0.1", sched |-> TRUE, steps |-> 1, rate |-> "0.9", stair |-> TRUE],
   [lr0 |-> "0.05", sched |-> TRUE, steps |-> 3, rate |-> "0.8", stair |-> FALSE], [lr0 |-> "0.05", sched |-> FALSE, steps |-> 2, rate |-> "0.9", stair |-> FALSE],
   [lr0 |-> "0.02", sched |-> TRUE, steps |-> 3, rate |-> "0.25", stair |-> TRUE], [lr0 |-> "0.002", sched |-> TRUE, steps |-> 1000, rate |-> "0.99", stair |-> FALSE],
   [lr0 |-> "0.02", sched |-> TRUE, steps |-> "3/2", rate |-> "0.5", stair |-> TRUE], [lr0 |-> "0.03", sched |-> TRUE, steps |-> "1/2", rate |-> "0.8", stair |-> FALSE], [lr0 |-> "0.01", sched |-> TRUE, steps |-> "5/2", rate |-> "0.4", stair |-> TRUE],
   [lr0 |-> "0", sched |-> FALSE, steps |-> 2, rate |-> "0.5", stair |-> TRUE], [lr0 |-> "0", sched |-> TRUE, steps |-> 2, rate |-> "0.5", stair |-> FALSE]>>
HardB == << << <<1, 0, "1">>, <<2, 0, "-1">> >>, << <<1, 1, "1">>, <<2, 1, "-1">> >>, << <<0, 0, "1">>, <<2, 0, "-1/2">>, <<0, 2, "1/4">> >> >>
HardG == << << <<0, 0, "1/2">> >>, << <<0, 1, "2">>, <<1, 0, "-1">> >>, << <<1, 1, "1">>, <<0, 2, "1/2">> >> >>
Big(a) == a % 12 = 7
ModelOp(o, kind, a, s, share) ==
   LET hid == IF Focus = "C22" THEN Cyc(WideHidden, a, s + 1) ELSE Cyc(Hidden, a, s + 1)  big == Big(a) /\ o = "a"  none == kind = "hard" /\ a % 3 = 0 IN
   [op |-> "train.model", obj |-> o, kind |-> kind, eq |-> EqFor(kind, a, s), dims |-> <<2>> \o hid \o << IF kind = "domain" THEN 2 ELSE 1 >>,
    act |-> IF Len(hid) > 3 /\ Cyc(Acts, a, s + 2) = "square" THEN "tanh" ELSE Cyc(Acts, a, s + 2), actgiven |-> (a % 2 = 0), dtype |-> IF share = "" THEN Cyc(<<"float64", "float64", "float64", "float32", "float64">>, a, s + 3) ELSE "float64", lr |-> Cyc(LrCat, a, s + 4),
    hnone |-> none, hb |-> IF none THEN << <<0, 0, "1">> >> ELSE Cyc(HardB, a, s + 5), hg |-> IF none THEN <<>> ELSE Cyc(HardG, a, s + 6),
    C |-> IF big THEN Cyc(<<12, 5, 17, 70, 40>>, a, s + 7) ELSE IF share = "" THEN 1 + Rnd(a, s + 7, 3) ELSE 2, M |-> IF big THEN Cyc(<<4, 9, 2>>, a, s + 8) ELSE 1 + Rnd(a, s + 8, 4), Q |-> IF big THEN Cyc(<<4, 9, 3>>, a, s + 9) ELSE 1 + Rnd(a, s + 9, 4),
    nb |-> IF big THEN Cyc(<<40, 9, 70, 260>>, a, s + 10) ELSE 1 + Rnd(a, s + 10, 4), ns |-> IF big THEN Cyc(<<33, 8, 12, 150>>, a, s + 11) ELSE 1 + Rnd(a, s + 11, 3),
    tseed |-> Hash(a, s, 5), pattern |-> Cyc(<<"dense", "ints", "dense", "sparse", "big", "small", "tiny">>, a, s + 12), inv |-> Cyc(PCat, a, s + 13), share |-> share, sharelr |-> (Rnd(a, s + 14, 2) = 0), sharedims |-> (Rnd(a, s + 15, 2) = 0)]
StepOp(o, a, s) == [op |-> "train.step", obj |-> o, beta |-> Cyc(Betas, a, s), btype |-> IF Cyc(Betas, a, s) \in {"1/2", "7/2"} THEN Cyc(<<"tensor", "float">>, a, s + 1) ELSE Cyc(<<"tensor", "int", "tensor">>, a, s + 1),
                    p |-> Par(a, s + 2), ptype |-> Cyc(<<"tensor", "tensor", "float">>, a, s + 3), pmode |-> Cyc(<<"fresh", "same">>, a, s + 4)]
PredOp(o, kind, a, s) == [op |-> "train.predict", obj |-> o, how |-> Cyc(<<"call", "predict", "batches", "single">>, a, s), n |-> IF Rnd(a, s + 2, 5) = 0 THEN Cyc(<<33, 70, 257, 40, 129, 600, 1100>>, a, s + 3) ELSE 3 + Rnd(a, s, 9), batch |-> 1 + Rnd(a, s + 1, 4), grid |-> (a % 3 = 0),
                    pseed |-> Hash(a, s, 8), out |-> IF kind = "domain" THEN 2 ELSE 1]
SetOp(o, a, s) == [op |-> "train.set", obj |-> o, wseed |-> Hash(a, s, 9)]
Recheck(o) == [op |-> "train.recheck", obj |-> o]
SameP(st, ref) == [st EXCEPT !.ptype = ref.ptype, !.btype = ref.btype, !.pmode = ref.pmode]
\* many steps of one model
LongScenario(a) == LET k1 == Cyc(Kinds, a, 1)  s1 == StepOp("a", a, 20) IN
   IF a % 32 = 9 THEN << ModelOp("a", k1, a, 10, "") >> \o [i \in 1..14 |-> SameP(StepOp("a", a, 20 + i), s1)] \o << Recheck("a") >>
   ELSE \* a small network for very many steps
     LET kd == Cyc(Kinds, (a + 7) \div 32, 1) m == ModelOp("a", kd, a, 10, "") IN
     << [m EXCEPT !.dims = <<2, 2, IF kd = "domain" THEN 2 ELSE 1>>, !.C = 2, !.M = 2, !.Q = 2, !.nb = 2, !.ns = 2, !.act = "tanh", !.dtype = "float64", !.pattern = "dense",
            !.lr = Cyc(<<[lr0 |-> "0.01", sched |-> TRUE, steps |-> 50, rate |-> "0.5", stair |-> TRUE], [lr0 |-> "0.005", sched |-> TRUE, steps |-> 64, rate |-> "0.8", stair |-> FALSE], [lr0 |-> "0.01", sched |-> FALSE, steps |-> 5, rate |-> "0.5", stair |-> TRUE]>>, (a + 7) \div 32, 2)] >>
     \o [i \in 1..120 |-> [SameP(StepOp("a", a, 20 + (i % 9)), s1) EXCEPT !.beta = "1"]] \o << Recheck("a") >>
\* checkpoints: interrupted after n steps and resumed by a newly built model, or rolled back
CkDir == << <<>>, <<"out">>, <<"out", "deep er">>, <<"run.1">> >>
CkName == << <<"model_weights", "model_weights2">>, <<"w", "w_1">>, <<"ckpt-1", "ckpt-10">>, <<"a.b", "a">> >>
Save(o, a, i) == [op |-> "train.save", obj |-> o, dir |-> Cyc(CkDir, a, 80), name |-> Cyc(CkName, a, 81)[i], as |-> Cyc(<<"str", "Path">>, a, 82)]
Load(o, a, i) == [Save(o, a, i) EXCEPT !.op = "train.load"]
ResumeScenario(a) ==
   LET kd == Cyc(Kinds, a, 1)  s1 == StepOp("a", a, 20)  n == 1 + Rnd(a, 21, 3)  m(o) == [ModelOp("a", kd, a, 10, "") EXCEPT !.obj = o]
       st(o, i) == [SameP(StepOp("a", a, 20 + i), s1) EXCEPT !.obj = o]
       early == a % 4 = 0      \* a checkpoint of the untrained network
       first == << m("a") >> \o (IF a % 2 = 0 THEN << SetOp("a", a, 11) >> ELSE <<>>)
                \o (IF early THEN << Save("a", a, 1) >> ELSE [i \in 1..n |-> st("a", i)] \o << Save("a", a, 1) >>)
       more == << st("a", 5), st("a", 6) >> \o (IF a % 3 = 0 THEN << Save("a", a, 1) >> ELSE IF a % 3 = 1 THEN << Save("a", a, 2) >> ELSE <<>>)
       cont == << m("b"), Load("b", a, 1), Recheck("b"), PredOp("b", kd, a, 24), st("b", 5), st("b", 6), st("b", 8), Recheck("b") >>
       late == IF a % 3 = 1 THEN << st("a", 7), m("c"), Load("c", a, 2), st("c", 9), st("c", 5), Recheck("c") >> ELSE <<>>
       roll == IF early THEN << st("a", 9) >> ELSE << st("a", 9), Load("a", a, 1), PredOp("a", kd, a, 25), st("a", 5), st("a", 6), Recheck("a") >> IN
   first \o more \o cont \o (IF a % 5 < 2 THEN late ELSE roll) \o (IF a % 5 = 4 THEN << m("d"), Load("d", a, 1), st("d", 5), st("b", 5), st("d", 6), Recheck("b"), Recheck("d") >> ELSE <<>>)
\* models made from configurations, read before or after steps, and trained next to the first model
Config(o, key) == [op |-> "train.config", obj |-> o, key |-> key]
Rebuild(o, key, from, a, s, m) == [op |-> "train.rebuild", obj |-> o, key |-> key, from |-> from, edit |-> Cyc(<<"none", "lr", "none", "act", "none", "hard">>, a, s),
   act |-> IF Cyc(<<"none", "lr", "none", "act", "none", "hard">>, a, s) = "act" THEN Cyc(<<"sigmoid", "tanh", "relu">>, a, s + 1) ELSE m.act, lr |-> Cyc(LrCat, a, s + 2), hard |-> [b |-> Cyc(HardB, a, s + 3), g |-> Cyc(HardG, a, s + 4)]]
RebuildLr == << LrCat[2], LrCat[5], LrCat[1], LrCat[10], LrCat[8], LrCat[3], LrCat[9], LrCat[2] >>
RebuildScenario(a) ==
   LET kd == Kinds[1 + (a % 4)]  s1 == StepOp("a", a, 20)  m == [ModelOp("a", kd, a, 10, "") EXCEPT !.lr = RebuildLr[1 + ((a \div 4) % 8)]]
       st(o, i) == [SameP(StepOp("a", a, 20 + i), s1) EXCEPT !.obj = o]
       pd(o, i) == PredOp(o, kd, a, 24 + i) IN
   << m >> \o (IF a % 2 = 0 THEN << SetOp("a", a, 11) >> ELSE <<>>)
   \o (IF a % 3 = 0 THEN << Config("a", "p") >> ELSE <<>>) \o (IF a % 5 < 3 THEN [i \in 1..(1 + Rnd(a, 21, 2)) |-> st("a", i)] ELSE <<>>)
   \o (IF a % 3 # 0 THEN << Config("a", "p") >> ELSE <<>>) \o (IF a % 4 = 1 THEN << st("a", 3) >> ELSE <<>>)
   \o << Rebuild("b", "p", "a", a, 90, m), pd("b", 1), st("b", 4), st("a", 4), st("b", 5), Recheck("a"), pd("b", 2), Recheck("b") >>
   \o (IF a % 3 = 1 THEN << Rebuild("c", "p", "b", a, 91, m), pd("c", 3), st("c", 6), st("b", 6), Recheck("c") >>
       ELSE IF a % 3 = 2 THEN << Config("b", "q"), Rebuild("c", "q", "a", a, 92, m), st("c", 6), st("a", 7), st("c", 8), pd("c", 3), Recheck("b"), Recheck("c") >> ELSE <<>>)
\* a small network fitted at very many points
ManyOn(a, kd) == LET s1 == StepOp("a", a, 20) m == ModelOp("a", kd, a, 10, "") IN
   << [m EXCEPT !.dims = <<2, 2, IF kd = "domain" THEN 2 ELSE 1>>, !.C = IF kd = "hard" THEN 900 ELSE 2, !.M = 2, !.Q = 2, !.nb = 1100 + Rnd(a, 4, 900), !.ns = IF a % 32 < 16 THEN 1300 ELSE 5, !.act = "tanh"]>>
   \o << s1, SameP([StepOp("a", a, 21) EXCEPT !.beta = "3"], s1), Recheck("a") >>
ManyScenario(a) == ManyOn(a, "std") \o ManyOn(a + 1, Cyc(<<"inverse", "domain", "hard">>, a \div 16, 1))
\* small data and a network near zero: gradients of very different sizes, many of them tiny
TinyScenario(a) == LET kd == Cyc(Kinds, a \div 8, 1) s1 == StepOp("a", a, 20) m == ModelOp("a", kd, a, 10, "") IN
   << [m EXCEPT !.dtype = "float64", !.pattern = "tiny", !.act = IF m.act = "relu" THEN "sigmoid" ELSE m.act], SetOp("a", a, 11) @@ [wscale |-> "1/10000"], s1, SameP(StepOp("a", a, 21), s1), SameP(StepOp("a", a, 22), s1), Recheck("a") >>
StepScenario(a) == LET k1 == Cyc(Kinds, a, 1)  k2 == Cyc(Kinds, a, 77) s1 == StepOp("a", a, 20) s2 == StepOp("b", a, 120) IN
   << ModelOp("a", k1, a, 10, "") >> \o (IF a % 2 = 0 THEN << SetOp("a", a, 11) >> ELSE <<>>)
   \o << s1, SameP(StepOp("a", a, 30), s1) >>
   \o (IF a % 3 = 0 THEN << ModelOp("b", IF a % 2 = 0 THEN k1 ELSE k2, a, 60, IF a % 2 = 0 THEN "a" ELSE ""), s2, SameP(StepOp("a", a, 40), s1), SameP(StepOp("b", a, 130), s2), PredOp("b", IF a % 2 = 0 THEN k1 ELSE k2, a, 22), Recheck("b") >>
       ELSE << s1, PredOp("a", k1, a, 15) >> \o (IF a % 3 = 1 THEN << SetOp("a", a, 19) >> ELSE <<>>))
   \o << SameP(StepOp("a", a, 50), s1), SameP(StepOp("a", a, 55), s1), Recheck("a") >>
PredScenario(a) == LET k1 == Cyc(Kinds, a, 1) k2 == Cyc(Kinds, a, 2) IN
   << ModelOp("a", k1, a, 10, ""), PredOp("a", k1, a, 14), SetOp("a", a, 11), PredOp("a", k1, a, 15), PredOp("a", k1, a, 16) >>
   \o (IF a % 8 = 3 THEN LET kc == Cyc(Kinds, a \div 8, 1) IN
         << [ModelOp("c", kc, a, 50, "") EXCEPT !.dims = <<2, 2, IF kc = "domain" THEN 2 ELSE 1>>], [PredOp("c", kc, a, 51) EXCEPT !.how = IF (a \div 32) % 2 = 0 THEN "call" ELSE "predict", !.n = 4100 + Rnd(a, 52, 4000), !.batch = 5000] >> ELSE <<>>)
   \o << ModelOp("b", k2, a, 70, ""), SetOp("b", a, 12), PredOp("b", k2, a, 17), PredOp("a", k1, a, 18) >>
   \o (IF a % 4 = 0 THEN << StepOp("a", a, 20), PredOp("a", k1, a, 23), PredOp("b", k2, a, 24) >> ELSE <<>>)
\* a datum that is not finite; a network with attention and one made from its configuration
NonFinite(a, i) == LET m == ModelOp("x", Cyc(Kinds, a + i, 1), a, 300 + i, "")  w == Cyc(<<"f", "bv", "sv", "f">>, a, 310 + i) IN
   [m EXCEPT !.op = "train.nonfinite", !.pattern = "dense", !.C = 2 + Rnd(a, 311 + i, 3)] @@ [where |-> IF w = "sv" /\ m.kind \in {"std", "hard"} THEN "f" ELSE w, at |-> Rnd(a, 312 + i, 20), value |-> Cyc(<<"inf", "nan", "-inf">>, a, 313 + i), p |-> Par(a, 314 + i)]
Attention(a, i) == [ModelOp("x", Cyc(Kinds, a + i, 1), a, 330 + i, "") EXCEPT !.op = "train.attention", !.pattern = "dense"] @@ [n |-> 2 + Rnd(a, 331 + i, 6), pseed |-> Hash(a, 332, i), trained |-> (Rnd(a, 333 + i, 2) = 0), p |-> Par(a, 334 + i)]
Extra(a) == IF Focus = "C20" THEN << NonFinite(a, 1) >> ELSE IF Focus = "C31" THEN << Attention(a, 1) >> ELSE <<>>
Ops0(a) == IF Focus = "C22" THEN PredScenario(a) ELSE IF Focus = "C27" THEN ResumeScenario(a) ELSE IF Focus = "C31" THEN RebuildScenario(a) ELSE IF a % 8 = 2 THEN TinyScenario(a) ELSE IF a % 16 = 5 THEN ManyScenario(a) ELSE IF a % 16 = 9 THEN LongScenario(a) ELSE StepScenario(a)
Ops(a) == Ops0(a) \o Extra(a)
Scenario(a) == [id |-> a, seed |-> Hash(a, 1, 77), ops |-> Ops(a)]
Spec == GenInit /\ [][GenNext(Scenario)]_k
=============================================================================
