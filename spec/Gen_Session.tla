------------------------------ MODULE Gen_Session ------------------------------
(* Seeded sessions from mesh to prediction: session X in two runs, session Y   *)
(* (X with one to three settings changed) in one, interleaved; and one of them *)
(* alone in a process.                                                         *)
EXTENDS Gen_FEcat
Fields == <<"limits", "cells", "nb", "nt", "order", "type", "qorder", "qtype", "trans", "f", "bdf", "u", "dtype", "eqp", "dims", "act", "lr", "beta", "seed", "method", "mesh", "tags", "names">>
\* the settings that session Y changes
Changed(a) == {Cyc(Fields, a, 1)} \cup (IF a % 3 = 0 THEN {Cyc(Fields, a, 2)} ELSE {}) \cup (IF a % 4 = 0 THEN {"seed"} ELSE {})
V(cat, a, s, field, ch) == Cyc(cat, a + (IF field \in ch THEN 1 ELSE 0), s)
Kinds == <<"std", "hard", "inverse", "domain", "std">>
EqFor(kind, a) == CASE kind \in {"std", "hard"} -> Cyc(<<"poisson", "cd2d", "helmholtz">>, a, 3) [] kind = "inverse" -> Cyc(<<"poisson_inverse", "cd2d_inverse">>, a, 3) [] kind = "domain" -> "cd2d_inverse_domain"
Small == <<"1", "-1", "2", "1/2", "-3/4", "3", "5/2">>
PolyS(a, s, deg, off) == [kind |-> "poly", c |-> Flat([i \in 1..(deg + 1) |-> [j \in 1..(deg + 2 - i) |-> <<i - 1, j - 1, Cyc(Small, a + off, s + i * 7 + j)>>]])]
Off(field, ch) == IF field \in ch THEN 1 ELSE 0
Hidden == << <<4>>, <<3, 3>>, <<6, 2>>, <<5, 5, 5>>, <<8>>, <<4, 1>>, <<3, 1, 1>> >>
Mesh(a, ch, sd) ==
   IF a % 3 # 0 THEN [do |-> "mesh", seed |-> sd, src |-> "internal", nt |-> V(<< <<4, 3>>, <<3, 4>>, <<6, 2>>, <<5, 5>> >>, a, 5, "nt", ch), x |-> V(MildLimits, a, 6, "limits", ch), y |-> V(MildLimits, a, 7, "limits", ch),
        n |-> V(<< <<2, 2>>, <<4, 1>>, <<1, 4>>, <<3, 2>>, <<2, 3>>, <<5, 4>> >>, a, 8, "cells", ch), nb |-> V(<<40, 42, 12, 100, 43>>, a, 9, "nb", ch)]
   ELSE [do |-> "mesh", seed |-> sd, src |-> "external", nt |-> <<4, 3>>, r |-> V(<<1, 2, 0, 3>>, a, 9, "nb", ch), method |-> V(<<"lhs", "uniform", "lhs">>, a, 10, "method", ch),
        mesh |-> MeshFile(a, 10 + Off("mesh", ch), V(<< <<2, 2>>, <<3, 2>>, <<2, 3>>, <<4, 3>>, <<6, 1>> >>, a, 8, "cells", ch), Cyc(<<2, 0, 1, -2>>, a, 11), V(FeAffines, a, 12, "limits", ch), V(TagSets, a, 13, "tags", ch), a % 2 = 0, "VEQ", 2, FALSE, FALSE)]
Comps(a, i) == [do |-> "components", seed |-> 1, order |-> Cyc(<< <<0, 1>>, <<1, 0>>, <<0, 1, 0>>, <<1>> >>, a, 36 + i)]
Script(a, ch) ==
   LET sd(i) == 1 + Hash(a, i, IF "seed" \in ch THEN 4 ELSE 3)  kind == Cyc(Kinds, a, 14)
       u == PolyS(a, 100, 2, Off("u", ch))
       tr == IF a % 3 = 0 THEN "bilinear" ELSE V(<<"affine", "bilinear">>, a, 15, "trans", ch)
       par == [eps |-> V(Small, a, 16, "eqp", ch), b_x |-> Cyc(Small, a, 17), b_y |-> V(Small, a, 18, "eqp", ch), c |-> Cyc(Small, a, 19), k |-> V(Small, a, 20, "eqp", ch)]
       steps(i, n) == [do |-> "steps", seed |-> sd(i), n |-> n, beta |-> V(<<"10", "1", "5/2">>, a, 26, "beta", ch)]
       sensor(i) == [do |-> "sensor", seed |-> sd(i), u |-> u, n |-> V(<<10, 23, 50, 17>>, a, 25, "nb", ch)] IN
   << Mesh(a, ch, sd(1)), [do |-> "testpts", seed |-> sd(2)],
      [do |-> "space", seed |-> sd(3), order |-> V(<<2, 3, 4, 5>>, a, 21, "order", ch), type |-> V(Types, a, 22, "type", ch), qorder |-> IF Cyc(Fields, a, 1) = "qtype" THEN Cyc(<<5, 3, 8, 6>>, a \div 23, 23) ELSE V(<<3, 4, 5, 6>>, a, 23, "qorder", ch), qtype |-> V(QTypes, a, 24, "qtype", ch),
       trans |-> tr, f |-> PolyS(a, 200, 2, Off("f", ch)), bdf |-> << PolyS(a, 300, 1, Off("bdf", ch)), PolyS(a, 320, 1, 0), PolyS(a, 340, 2, Off("bdf", ch)) >>],
      [do |-> "tables", seed |-> sd(4)], [do |-> "dirichlet", seed |-> sd(5)] >>
   \o (IF Focus = "C28" THEN <<>> ELSE << [do |-> "vspace", seed |-> sd(20), order |-> Cyc(<<2, 3>>, a, 35), type |-> Cyc(Types, a, 36), f |-> PolyS(a, 500, 1, 0), g |-> PolyS(a, 520, 2, 0), b |-> PolyS(a, 540, 1, 0), d |-> PolyS(a, 560, 1, 0)], Comps(a, 1) >>)
   \o (IF a % 3 # 0 THEN << sensor(6) >> ELSE <<>>)
   \o << [do |-> "handler", seed |-> sd(7), dtype |-> V(<<"float64", "float32">>, a, 27, "dtype", ch)],
      [do |-> "params", seed |-> sd(8), p |-> par, inv |-> V(Small, a, 28, "eqp", ch)],
      [do |-> "filesensor", seed |-> sd(9), u |-> u, n |-> V(<<5, 12, 60>>, a, 25, "nb", ch), rows |-> V(<<11, 40, 59>>, a, 29, "u", ch)],
      [do |-> "model", seed |-> sd(10), kind |-> IF kind \in {"inverse", "domain"} /\ a % 3 = 0 THEN "std" ELSE kind, eq |-> IF kind \in {"inverse", "domain"} /\ a % 3 = 0 THEN "poisson" ELSE EqFor(kind, a),
       dims |-> <<2>> \o V(Hidden, a, 30, "dims", ch) \o << IF kind = "domain" /\ a % 3 # 0 THEN 2 ELSE 1 >>, act |-> V(<<"tanh", "sigmoid", "relu">>, a, 31, "act", ch), lr |-> V(<<"1/100", "1/1000", "1/50">>, a, 32, "lr", ch), sched |-> (a % 2 = 0),
       hard |-> Poly(a, 400, 1), u |-> u],
      steps(11, 3), [do |-> "tables", seed |-> sd(12)], [do |-> "predict", seed |-> sd(13)], [do |-> "errors", seed |-> sd(14), u |-> u],
      [do |-> "vtk", seed |-> sd(15), u |-> u, file |-> "prediction.vtk", names |-> V(<< <<"Sol", "Exact", "Error">>, <<"a">>, <<"u", "v">> >>, a, 33, "names", ch), special |-> (a % 2 = 1)],
      steps(16, 2) >> \o (IF Focus = "C28" THEN <<>> ELSE << Comps(a, 2) >>) \o << [do |-> "dirichlet", seed |-> sd(17)], [do |-> "tables", seed |-> sd(12)], [do |-> "testpts", seed |-> sd(18)], [do |-> "predict", seed |-> sd(19)] >>
\* a merge of the runs, each keeping its own order; burst: how many calls a run makes in a row at most
RECURSIVE Merge(_, _, _)
Merge(runs, a, i) ==
   LET live == {r \in 1..Len(runs) : runs[r].calls # <<>>} IN
   IF live = {} THEN <<>> ELSE
   LET r == SetSeq(live)[(Hash(a, i, 41) % Cardinality(live)) + 1]
       n == Min2(Len(runs[r].calls), 1 + (Hash(a, i, 42) % Cyc(<<1, 3, 9, 30>>, a, 34))) IN
   [j \in 1..n |-> [op |-> "ses.call", run |-> runs[r].run, call |-> runs[r].calls[j], hold |-> (Focus = "C29")]]
   \o Merge([runs EXCEPT ![r].calls = SubSeq(@, n + 1, Len(@))], a, i + 1)
\*------- C29: the session goes on with the same geometry, meshed again, a second space, and plots
Plots(a, i) == [do |-> "plots", seed |-> 1, what |-> Cyc(<<"mesh", "residual", "loss", "array">>, a, 50 + i), list |-> (a % 2 = 0)]
HoldScript(a) == LET X == Script(a, {})  Y == Script(a, {"limits", "cells", "nb", "mesh", "order"}) IN
   X \o << Plots(a, 1), [Y[1] EXCEPT !.nt = X[1].nt] @@ [again |-> TRUE] >> \o SubSeq(Y, 2, Len(Y)) \o << Plots(a, 2), X[2], [X[1] EXCEPT !.seed = 9] @@ [again |-> TRUE], Y[2] >>
HoldOps(a) == Merge(<< [run |-> "x1", calls |-> HoldScript(a)] >> \o (IF a % 3 = 1 THEN << [run |-> "y1", calls |-> Script(a, Changed(a))] >> ELSE <<>>), a, 1)
\*------- C30: refused calls in between
GeoRefusals(ext) == IF ext THEN <<"sampling", "extension", "missing file", "no quads", "level", "names", "folder", "geometry kind">>
                    ELSE <<"limits", "bound count", "cell count", "names", "folder", "extension", "geometry kind">>
SpaceRefusals == <<"fe type", "order", "quadrature", "map", "forcing">>
Refusals(done, ext) == GeoRefusals(ext) \o SpaceRefusals
   \o (IF "space" \in done THEN <<"index", "negative", "component", "force component", "tensor type", "failing forcing", "failing boundary", "failing forcing", "failing boundary">> ELSE <<>>)
   \o (IF "vspace" \in done THEN <<"failing vector", "failing vector boundary", "component 2", "component name", "failing vector">> ELSE <<>>)
   \o (IF "handler" \in done THEN <<"no table", "parameters", "inverse", "failing handler", "failing input">> \o (IF ext THEN <<>> ELSE <<"exact">>) ELSE <<>>)
   \o (IF "model" \in done THEN <<"width", "checkpoint", "lengths">> ELSE <<>>)
   \o (IF "steps" \in done THEN <<"step", "beta", "step", "beta">> ELSE <<>>)      \* after a failed first step TensorFlow itself gives up the compiled function
Refused(a, i, done, ext) == LET cat == Refusals(done, ext) IN [do |-> "refuse", seed |-> 1 + Hash(a, i, 61), what |-> cat[(Hash(a, i, 62) % Len(cat)) + 1], n |-> 1 + (Hash(a, i, 64) % 5), i |-> Hash(a, i, 65) % 50]
RECURSIVE Between(_, _, _, _, _)
Between(calls, a, i, done, ext) == IF i > Len(calls) THEN <<>> ELSE
   LET d == done \cup {calls[i].do} IN
   << calls[i] >> \o [j \in 1..(IF i = 1 THEN 2 ELSE Hash(a, i, 63) % 3) |-> Refused(a, 10 * i + j, d, ext)] \o Between(calls, a, i + 1, d, ext)
RefuseOps(a) == LET X == Script(a, {}) IN
   IF a % 2 = 0 THEN Merge(<< [run |-> "x1", calls |-> X], [run |-> "x2", calls |-> Between(X, a, 1, {}, a % 3 = 0)] >>, a, 1)
   ELSE [j \in 1..Len(X) |-> [op |-> "ses.call", run |-> "x1", call |-> X[j]]] \o LET B == Between(X, a, 1, {}, a % 3 = 0) IN [j \in 1..Len(B) |-> [op |-> "ses.call", run |-> "x2", call |-> B[j]]]
Ops(a) == CASE Focus = "C29" -> HoldOps(a) [] Focus = "C30" -> RefuseOps(a) [] OTHER ->
   LET X == Script(a, {}) Y == Script(a, Changed(a)) IN
   Merge(<< [run |-> "x1", calls |-> X], [run |-> "y1", calls |-> Y], [run |-> "x2", calls |-> X] >>, a, 1)
   \o << [op |-> "ses.process", hashseed |-> a % 4, calls |-> IF a % 3 = 1 THEN X ELSE Y] >>
Scenario(a) == [id |-> a, seed |-> Hash(a, 1, 77), ops |-> Ops(a)]
Spec == GenInit /\ [][GenNext(Scenario)]_k
=============================================================================
