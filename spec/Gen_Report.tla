----------------------------- MODULE Gen_Report -----------------------------
EXTENDS GenLib
(*------------------------------ metrics -----------------------------------*)
Patterns == <<"dense", "mixed", "negative", "equal", "one", "cancel", "scaled", "huge", "tiny", "constant", "spike", "dense">>
Layouts == <<"C", "F", "strided", "reversed", "readonly", "C">>
Shapes == << <<1>>, <<2>>, <<7>>, <<1, 1>>, <<5, 1>>, <<4, 3>>, <<1, 6>>, <<33>>, <<2, 50>>, <<129>>, <<400>>, <<31, 31>>, <<1500>>, <<5000>>, <<60, 41>>, <<150, 150>>, <<11000>> >>
DTypes == <<"float64", "float64", "float32", "int64", "mixed", "float64">>
Fs == <<"all", "l1", "l2", "linf", "l1r", "l2r", "linfr">>
ArrOp(o, a, s) == LET sh == IF Thorough /\ a % 11 = 0 THEN <<3000>> ELSE Cyc(Shapes, a, s) dt == Cyc(DTypes, a, s + 1) p == Cyc(Patterns, a, s + 2) IN
   [op |-> "rep.arrays", obj |-> o, shape |-> sh, dtype |-> dt, pattern |-> IF dt = "float32" /\ p = "one" THEN "dense" ELSE IF dt = "int64" /\ p \in {"huge", "tiny", "mixed"} THEN "negative" ELSE p,
    lay |-> <<Cyc(Layouts, a, s + 3), Cyc(Layouts, a, s + 4)>>, column |-> (Len(sh) = 1 /\ Rnd(a, s + 5, 3) = 0), seed |-> Hash(a, s, 6)]
MetOp(o, a, s, f) == [op |-> "rep.metric", obj |-> o, f |-> f, perm |-> IF Rnd(a, s, 3) = 0 THEN Hash(a, s, 7) + 1 ELSE 0, swap |-> (Rnd(a, s + 1, 4) = 0)]
MetricScenario(a) == << ArrOp("a", a, 1) >> \o [i \in 1..7 |-> MetOp("a", a, 20 + i, Fs[i])] \o << ArrOp("b", a, 60) >> \o [i \in 1..4 |-> MetOp(IF i % 2 = 0 THEN "a" ELSE "b", a, 80 + i, Cyc(Fs, a, 90 + i))]
(*------------------------------- files ------------------------------------*)
Helpers == <<"loss", "array", "multiple", "inverse_test", "test", "test_time", "contour", "inverse_param", "residual", "mesh", "mesh_at_construction", "internal_mesh", "external_mesh", "solution", "residual", "mesh">>
Dirs == <<"out", "out/deep er", "out.v1", "", "res_ults-1">>
FNames == <<"u", "loss_function", "my plot", "run.1", "mesh", "a_b-c", "cell_residual", "test_loss_function", "Ergebnis", "sol", "sol_error", "run">>
Prefixes == <<"", "u", "test", "a.b", "">>
TagCounts == <<4, 1, 0, 2, 15, 16, 17, 33, 7>>
CallOp(a, s, h, d) == [op |-> "rep.call", helper |-> h, dir |-> d, how |-> IF h \in {"mesh_at_construction", "mesh"} THEN "abs" ELSE Cyc(<<"abs", "rel", "slash">>, a, s),
   name |-> IF h = "solution" THEN Cyc(<<"sol.vtk", "a b.vtk", "u.1.vtk">>, a, s + 1) ELSE Cyc(FNames, a, s + 1), prefix |-> Cyc(Prefixes, a, s + 2), epoch |-> Cyc(<<1, 0, 10, 11, 5000, 99999, 100000, 1234567>>, a, s + 3), optimized |-> (h = "internal_mesh" /\ a % 3 = 0),
   kind |-> "", title |-> Cyc(<<"Loss", "error", "T(x) 100%">>, a, s + 4), seed |-> Hash(a, s, 9), n |-> Cyc(<<1, 2, 3, 10, 40>>, a, s + 5), values |-> Cyc(<<"positive", "signed", "constant", "zeros", "signed">>, a, s + 6),
   list |-> (Rnd(a, s + 7, 2) = 0), ncells |-> Cyc(<<1, 2, 5>>, a, s + 8), tags |-> Cyc(TagCounts, a, s + 9)]
User(a, s, d, n) == [op |-> "rep.userfile", file |-> IF d = "" THEN n ELSE d \o "/" \o n, text |-> "mine " \o ToString(a)]
Group(a, s, h, d) == IF h = "solution" THEN << [CallOp(a, s + 50, "internal_mesh", d) EXCEPT !.optimized = FALSE], CallOp(a, s, h, d) >> ELSE << CallOp(a, s, h, d) >>
\* files whose names resemble those of the results
Alike(a, s, d, n) == << User(a, s, d, n \o Cyc(<<"_old.png", ".png.bak", "1.png", ".csv", ".pdf", "_1.png">>, a, s)), User(a, s + 1, d, Cyc(<<"old_", "x", "a">>, a, s + 1) \o n \o ".png") >>
FileScenario(a) == LET d1 == Cyc(Dirs, a, 1) d2 == Cyc(Dirs, a, 2) IN
   << User(a, 1, d1, Cyc(<<"notes.txt", "test.png", "loss_function.png.bak", "internal.mesh", "mesh.pdf">>, a, 3)), [op |-> "rep.meshfile"] >>
   \o (IF a % 2 = 0 THEN << User(a, 2, d1, "test_loss_function.png"), User(a, 2, d2, "keep.csv") >> ELSE <<>>)
   \o Alike(a, 30, d1, CallOp(a, 100, "array", d1).name) \o Alike(a, 32, d1, CallOp(a, 300, "array", d1).name) \o Alike(a, 34, d2, CallOp(a, 200, "array", d2).name)
   \o Alike(a, 36, d1, Cyc(<<"test_loss_function", "loss_function", "mesh", "internal", "inverse_test_loss_function", "u_test_loss_function">>, a, 37))
   \o Group(a, 100, Cyc(Helpers, a, 4), d1) \o Group(a, 200, Cyc(Helpers, a, 5), d2) \o Group(a, 300, Cyc(Helpers, a, 6), d1)
   \o Group(a, 400, Cyc(Helpers, a, 4), IF a % 3 = 0 THEN d2 ELSE d1) \o Group(a, 500, Cyc(Helpers, a, 7), d1)
Ops(a) == IF Focus = "C24" THEN MetricScenario(a) ELSE FileScenario(a)
Scenario(a) == [id |-> a, seed |-> Hash(a, 1, 77), ops |-> Ops(a)]
Spec == GenInit /\ [][GenNext(Scenario)]_k
=============================================================================
