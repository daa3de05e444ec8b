----------------------------- MODULE Gen_Physics -----------------------------
(* Loss evaluations on arbitrary tensors, and whole pipelines.                *)
EXTENDS Gen_FEcat
Eqs == <<"poisson", "poisson_inverse", "cd2d", "cd2d_inverse", "cd2d_inverse_domain", "helmholtz">>
PCat == <<"1", "0", "-1", "3/2", "-7/4", "1/10", "25", "-1/64", "2", "1000", "-3">>
Par0(a, s) == [eps |-> Cyc(PCat, a, s), b_x |-> Cyc(PCat, a, s + 1), b_y |-> Cyc(PCat, a, s + 2), c |-> Cyc(PCat, a, s + 3), k |-> Cyc(PCat, a, s + 4), inv |-> Cyc(PCat, a, s + 5)]
Par(a, s) == Coincide(Par0(a, s), Hash(a, s, 11) % 22)
Ext == << <<1, 1, 1>>, <<2, 2, 2>>, <<3, 4, 9>>, <<1, 4, 4>>, <<5, 4, 4>>, <<4, 4, 9>>, <<3, 9, 9>>, <<2, 1, 5>>, <<6, 9, 16>>, <<4, 5, 1>>, <<3, 3, 3>>, <<7, 2, 3>>, <<1, 1, 6>>, <<9, 4, 9>>, <<17, 3, 4>>, <<2, 16, 25>>, <<40, 4, 4>>, <<70, 1, 2>>, <<1, 36, 9>>, <<2, 2, 100>>, <<33, 5, 3>>, <<300, 1, 1>>, <<130, 2, 3>>, <<1, 64, 4>>, <<1, 2, 257>>, <<4, 100, 1>>, <<1000, 1, 1>>, <<1, 1, 400>> >>
Patterns == <<"dense", "sparse", "hot", "mixed", "ints", "onecell", "zero_u", "big">>
LossOp(a, s, eq) == LET e == Cyc(Ext, a, s) IN
   [op |-> "phys.loss", eq |-> eq, C |-> e[1], M |-> e[2], Q |-> e[3], dtype |-> Cyc(<<"float64", "float64", "float32">>, a, s + 1), seed |-> Hash(a, s, 3),
    pattern |-> Cyc(Patterns, a, s + 2), p |-> Par(a, s + 10), ptype |-> Cyc(<<"tensor", "float", "array1", "tensor">>, a, s + 3), mode |-> Cyc(<<"eager", "function", "eager">>, a, s + 4),
    extra |-> (a % 2 = 0)]
LossScenario(a) == [i \in 1..6 |-> LossOp(a, 40 * i, Eqs[i])]
(*------------------------------ pipelines ---------------------------------*)
Small == <<"1", "-1", "2", "1/2", "-3/4", "3", "5/2">>
SPar(a, s) == [eps |-> Cyc(Small, a, s), b_x |-> Cyc(Small, a, s + 1), b_y |-> Cyc(<<"0", "-2", "1", "3/2">>, a, s + 2), c |-> Cyc(<<"2", "-1", "0", "1/2">>, a, s + 3),
               k |-> Cyc(Small, a, s + 4), inv |-> "1"]
UPoly(a, s, deg) == [kind |-> "poly", c |-> Flat([i \in 1..(deg + 1) |-> [j \in 1..(deg + 2 - i) |-> <<i - 1, j - 1, Cyc(Small, a, s + i * 7 + j)>>]])]
Need(qt, d, N) == (d + N + 4) \div 2 + (IF qt = "gauss-jacobi" THEN 1 ELSE 0)
FEqs == <<"poisson", "cd2d", "helmholtz">>
PipeAffines == << <<0, 10, 0, 0, 0, 10, 100>>, <<-30, 7, 3, 20, -2, 9, 50>>, <<50, 6, -8, -40, 8, 6, 100>>, <<1, -9, 2, 2, 1, 11, 30>>, <<0, 30, 0, 0, 0, 1, 20>>, <<12, 0, -10, -7, 10, 0, 70>>,
   <<0, 10, 9, 5, 0, 3, 10>>, <<-7, 3, -8, 11, 9, 2, 4>> >>
PipeDims == << <<1, 1>>, <<2, 1>>, <<2, 2>>, <<1, 3>>, <<3, 2>>, <<4, 4>>, <<7, 5>>, <<12, 9>> >>
MeshOps(g, a, s, src, amp) ==
   IF src = "internal" THEN
     << [op |-> "geo.new", obj |-> g, kind |-> "internal", ntx |-> 3, nty |-> 2, opt |-> TRUE],
        [op |-> "geo.internal", obj |-> g, x |-> Cyc(MildLimits, a, s + 3), y |-> Cyc(MildLimits, a, s + 4), nx |-> 1 + Rnd(a, s, IF a % 4 = 0 THEN 7 ELSE 3), ny |-> 1 + Rnd(a, s + 1, IF a % 4 = 0 THEN 6 ELSE 3), nb |-> 8, lists |-> FALSE] >>
   ELSE << [op |-> "geo.new", obj |-> g, kind |-> "external", ntx |-> 3, nty |-> 2, opt |-> FALSE],
        [op |-> "geo.read", obj |-> g, r |-> 1, method |-> "uniform", file |-> g \o ".mesh", ref |-> 1,
         mesh |-> MeshFile(a, s, Cyc(PipeDims, a, s + 2), amp, Cyc(PipeAffines, a, s + 4), Cyc(TagSets, a, s + 5), FALSE, Cyc(Orders, a, s), 2, FALSE, FALSE)] >>
PipeOp(h, eq, u, p) == [op |-> "phys.pipe", obj |-> h, eq |-> eq, u |-> u, p |-> p]
PipeOn(o, g, h, a, s) ==
   LET src == Cyc(<<"internal", "external", "external">>, a, s)
       trans == IF src = "external" /\ a % 2 = 0 THEN "bilinear" ELSE Cyc(<<"affine", "bilinear">>, a, s + 1)
       amp == IF trans = "bilinear" THEN Cyc(<<2, 0, 1, -2>>, a, s + 2) ELSE Cyc(<<-1, 0, -2>>, a, s + 2)
       d == Cyc(<<1, 2, 3, 2>>, a, s + 3)  N == Cyc(<<2, 3, 2, 4>>, a, s + 4)  qt == Cyc(QTypes, a, s + 5)  p == SPar(a, s + 20)  u == UPoly(a, s + 40, d)
       eq == Cyc(FEqs, a, s + 6) IN
   MeshOps(g, a, s, src, amp)
   \o << [op |-> "fe.space", obj |-> o, from |-> g, order |-> N, type |-> Cyc(Types, a, s + 7), qorder |-> Max2(3, Need(qt, d, N)) + Rnd(a, s, 2), qtype |-> qt, trans |-> trans, vector |-> FALSE,
             f |-> << [kind |-> "match", eq |-> eq, u |-> u, p |-> p] >>],
         [op |-> "data.handler", obj |-> h, space |-> o, dtype |-> Cyc(<<"float64", "float64", "float32">>, a, s + 8), testpts |-> << <<"0", "0">> >>],
         PipeOp(h, eq, u, p), PipeOp(h, Cyc(FEqs, a + 1, s + 6), UPoly(a, s + 70, d), SPar(a, s + 30)) >>
PipeScenario(a) == PipeOn("a", "g", "h", a, 10) \o (IF a % 3 = 0 THEN PipeOn("b", "e", "k", a, 500) \o << PipeOp("h", "poisson", UPoly(a, 97, 1), SPar(a, 95)) >> ELSE <<>>)
\* the same settings on a rectangle and on its mirror image across the diagonal: equal areas, different shapes
TurnOn(o, g, h, a, s, sw) ==
   LET x == Cyc(<< <<"0", "1">>, <<"-1", "3">>, <<"2", "5/2">> >>, a, s) y == Cyc(<< <<"0", "4">>, <<"1", "3/2">>, <<"-2", "0">> >>, a, s + 1) nx == 1 + Rnd(a, s, 3) ny == 1 + Rnd(a, s + 1, 3)
       d == Cyc(<<2, 3, 1>>, a, s + 3) p == SPar(a, s + 20)  u == UPoly(a, s + 40, d) eq == Cyc(FEqs, a, s + 6) tr == Cyc(<<"affine", "bilinear">>, a, s + 2) IN
   << [op |-> "geo.new", obj |-> g, kind |-> "internal", ntx |-> 3, nty |-> 2, opt |-> TRUE],
      [op |-> "geo.internal", obj |-> g, x |-> IF sw THEN y ELSE x, y |-> IF sw THEN x ELSE y, nx |-> IF sw THEN ny ELSE nx, ny |-> IF sw THEN nx ELSE ny, nb |-> 8, lists |-> FALSE],
      [op |-> "fe.space", obj |-> o, from |-> g, order |-> 2, type |-> Cyc(Types, a, s + 7), qorder |-> Max2(4, Need("gauss-jacobi", d, 2)), qtype |-> Cyc(QTypes, a, s + 5), trans |-> tr, vector |-> FALSE,
             f |-> << [kind |-> "match", eq |-> eq, u |-> u, p |-> p] >>],
      [op |-> "data.handler", obj |-> h, space |-> o, dtype |-> "float64", testpts |-> << <<"0", "0">> >>],
      PipeOp(h, eq, u, p) >>
TurnScenario(a) == TurnOn("a", "g", "h", a, 10, FALSE) \o TurnOn("b", "e", "k", a, 10, TRUE) \o << PipeOp("h", "poisson", UPoly(a, 97, 1), SPar(a, 95)) >>
Ops(a) == CASE Focus = "C18" -> LossScenario(a) [] Focus = "C19" -> IF a % 6 = 5 THEN TurnScenario(a) ELSE PipeScenario(a)
Scenario(a) == [id |-> a, seed |-> Hash(a, 1, 77), ops |-> Ops(a)]
Spec == GenInit /\ [][GenNext(Scenario)]_k
=============================================================================
