------------------------------- MODULE Gen_FE -------------------------------
(* Histories of the finite-element layer.                                     *)
EXTENDS Gen_FEcat
(*--------------------------- rules (C07) ----------------------------------*)
QuadOp(n, qt, via, scr) == [op |-> "fe.quad", n |-> n, qtype |-> qt, via |-> via, scribble |-> scr]
\* scenario a = order a+2 for both families, through both entry points, twice
QuadScenario(a) == LET n == 3 + ((a - 1) % 48) m == 3 + Rnd(a, 3, 20) IN
   << QuadOp(n, "gauss-legendre", "setup", TRUE), QuadOp(n, "gauss-jacobi", "class", FALSE), QuadOp(m, Cyc(QTypes, a, 1), "class", TRUE),
      QuadOp(n, "gauss-jacobi", "setup", TRUE), QuadOp(n, "gauss-legendre", "class", FALSE) >>
(*------------------------ test functions (C08, C09) -----------------------*)
Corners == << <<"-1", "-1">>, <<"1", "-1">>, <<"1", "1">>, <<"-1", "1">> >>
Special == << <<"0", "0">>, <<"-1", "1/3">>, <<"1", "-2/7">>, <<"1/5", "-1">>, <<"-3/8", "1">>, <<"1/2", "0">>, <<"0", "-9/10">> >>
RandPt(a, s, i) == << QS(RndIn(a, s + 2 * i, -997, 997), 997), QS(RndIn(a, s + 2 * i + 1, -997, 997), 997) >>
PtSet(a, s) == LET kind == Cyc(<<1, 2, 3, 4, 5>>, a, s) IN
   CASE kind = 1 -> Corners \o Special
     [] kind = 2 -> << Cyc(Corners, a, s) >>
     [] kind = 3 -> << RandPt(a, s, 1) >>
     [] kind = 4 -> [i \in 1..7 |-> RandPt(a, s, i)]
     [] kind = 5 -> Special \o [i \in 1..5 |-> RandPt(a, s, i)]
BasisOp(o, N, t, what, P) == [op |-> "fe.basis", obj |-> o, order |-> N, type |-> t, what |-> what,
                              xi |-> [i \in 1..Len(P) |-> P[i][1]], eta |-> [i \in 1..Len(P) |-> P[i][2]]]
Derivs == <<"gradx", "grady", "gradxx", "gradxy", "gradyy">>
Orders2 == [i \in 1..15 |-> i + 1]       \* 2..16
\* one scenario per (type, order): 75 per block
BasisScenario(a, what) ==
   LET c == (a - 1) % 75  t == Types[(c % 5) + 1]  N == Orders2[(c \div 5) + 1]
       t2 == Cyc(Types, a, 2) N2 == Cyc(Orders2, a, 3)  P == PtSet(a, 4) P2 == PtSet(a, 5)
       both == Corners \o Special \o [i \in 1..4 |-> RandPt(a, 6, i)] IN
   (IF a % 7 = 3 THEN << BasisOp("c", 2 + Rnd(a, 30, 2), t2, IF what = "value" THEN what ELSE Cyc(Derivs, a, 31), [i \in 1..Cyc(<<130, 257, 70>>, a, 32) |-> RandPt(a, 33, i)]) >> ELSE <<>>) \o
   IF what = "value" THEN
     << BasisOp("a", N, t, "value", P), BasisOp("b", N2, t2, "value", P2), BasisOp("a", N, t, "value", both), BasisOp("a", N, t, "value", [i \in 1..N |-> RandPt(a, 7, i)]) >>
   ELSE Flat([d \in 1..5 |-> << BasisOp("a", N, t, Derivs[d], IF d % 2 = 0 THEN both ELSE Corners \o P) >>])
        \o << BasisOp("b", N2, t2, Cyc(Derivs, a, 8), P2), BasisOp("a", N, t, Cyc(Derivs, a, 9), P) >>
GetOp(o, acc, cell, comp, scr) == [op |-> "fe.get", obj |-> o, acc |-> acc, cell |-> cell, comp |-> comp, scribble |-> scr, wit |-> TRUE, np |-> (cell % 3 = 2), half |-> FALSE]
NC(d) == d[1] * d[2]
CellPick(a, s, d) == Rnd(a, s, NC(d))
Focused(acc, o, a, s, d) == Flat([i \in 1..Len(acc) |-> << GetOp(o, acc[i], CellPick(a, s + i, d), 0, 0) >>])
AllCells(o, acc, d) == Flat([c \in 1..NC(d) |-> [i \in 1..Len(acc) |-> GetOp(o, acc[i], c - 1, 0, 0)]])
BigDims == SpaceDims \o << <<4, 4>>, <<5, 7>>, <<1, 33>> >>
SmallSpace(o, a, s, d, vec) == [SpaceOp(o, a, s, d, vec) EXCEPT !.order = 2 + Rnd(a, s + 3, 2), !.qorder = 3 + Rnd(a, s + 4, 2)]
\* (scenarios of one space on a mesh of a few hundred cells)
Wide == << <<20, 15>>, <<11, 12>>, <<1, 300>>, <<130, 2>>, <<17, 16>> >>
IsWide(a) == a % 9 = 4
GeomScenario(a) == LET d == IF IsWide(a) THEN Cyc(Wide, a, 1) ELSE Cyc(BigDims, a, 1) e == Cyc(SpaceDims, a, 2) IN
   (IF IsWide(a) THEN << SmallSpace("a", a, 10, d, FALSE) >> ELSE << SpaceOp("a", a, 10, d, FALSE) >>) \o AllCells("a", IF IsWide(a) THEN <<"pts">> ELSE <<"pts", "w">>, d) \o << SpaceOp("b", a, 60, e, FALSE) >> \o AllCells("b", <<"w", "pts">>, e) \o AllCells("a", <<"w">>, d)
\* a single cell, all tables
TableScenario(a) == LET d == Cyc(<< <<1, 1>>, <<2, 1>>, <<1, 2>> >>, a, 1) IN
   << SpaceOp("a", a, 10, d, FALSE) >> \o AllCells("a", <<"w", "val", "gx", "gy", "gxx", "gxy", "gyy">>, d)
RefScenario(a) == << SpaceOp("a", a, 10, <<2, 1>>, FALSE), GetOp("a", "gxref", 0, 0, 0), GetOp("a", "gyref", 1, 0, 0), GetOp("a", "gyref", 0, 0, 1), GetOp("a", "gxref", 1, 0, 1) >>
ForceScenario(a) == LET wide == IsWide(a) d == IF wide THEN Cyc(Wide, a, 1) ELSE Cyc(SpaceDims \o << <<4, 4>> >>, a, 1) vec == a % 2 = 0 acc == IF vec THEN "forcev" ELSE "force" nc == IF vec THEN 2 + (a % 2) ELSE 1
      order == [i \in 1..(NC(d) * nc) |-> PermG(NC(d) * nc, a, 33, i - 1)]
      few == IF wide THEN 24 ELSE Len(order)
      qs == [i \in 1..few |-> GetOp("a", acc, order[i] \div nc, order[i] % nc, IF i % 3 = 0 THEN 1 ELSE 0)] IN
   (IF wide THEN << SmallSpace("a", a, 10, d, vec) >> ELSE << SpaceOp("a", a, 10, d, vec) >>) \o AllCells("a", <<"pts", "val">>, d) \o qs
   \o << SpaceOp("b", a, 60, <<1, 1>>, FALSE), GetOp("b", "pts", 0, 0, 0), GetOp("b", "val", 0, 0, 0), GetOp("b", "force", 0, 0, 2) >>
   \o [i \in 1..Len(qs) |-> qs[Len(qs) + 1 - i]]
Accs == <<"val", "gx", "gy", "gxref", "gyref", "pts", "w", "force">>
BadIdx(a, s, d) == Cyc(<< -1, NC(d), NC(d) + 1, -NC(d), NC(d) + 100, -2, -NC(d) - 1 >>, a, s)
IsoScenario(a) == LET d == IF IsWide(a) THEN Cyc(Wide, a, 1) ELSE Cyc(BigDims, a, 1) vec == a % 3 = 0
      accs == IF vec THEN [Accs EXCEPT ![8] = "forcev"] ELSE Accs
      walk(s, n) == [i \in 1..n |-> GetOp("a", accs[1 + Rnd(a, s + i, 8)], CellPick(a, s + 50 + i, d), IF vec THEN Rnd(a, s + 90 + i, 2) ELSE 0, Rnd(a, s + 130 + i, 4))]
      \* every accessor of one cell, scribbled on, then read again
      c0 == CellPick(a, 7, d)  sweep(scr) == [i \in 1..8 |-> GetOp("a", accs[i], c0, 0, IF scr THEN 1 + ((i + a) % 3) ELSE 0)]
      bads == [i \in 1..8 |-> GetOp("a", accs[i], BadIdx(a, i, d), 0, 0)] \o
              \* just outside: half below the first, half above the last
              [i \in 1..4 |-> [GetOp("a", accs[1 + Rnd(a, 500 + i, 8)], IF i % 2 = 0 THEN -1 ELSE NC(d), 0, 0) EXCEPT !.half = TRUE]] IN
   << SmallSpace("a", a, 10, d, vec) >> \o sweep(TRUE) \o sweep(FALSE) \o walk(200, 10) \o << SmallSpace("b", a, 60, d, FALSE) >>
   \o [i \in 1..8 |-> GetOp("b", Accs[i], c0, 0, 1 + (i % 3))] \o sweep(TRUE) \o [i \in 1..8 |-> GetOp("b", Accs[i], c0, 0, 0)] \o bads \o walk(400, 12) \o sweep(FALSE)
Ops(a) == CASE Focus = "C07" -> QuadScenario(a)
            [] Focus = "C08" -> BasisScenario(a, "value")
            [] Focus = "C09" -> (IF a % 6 = 0 THEN RefScenario(a \div 6) ELSE BasisScenario(a - (a \div 6), "grad"))
            [] Focus = "C10" -> GeomScenario(a)
            [] Focus = "C11" -> TableScenario(a)
            [] Focus = "C12" -> ForceScenario(a)
            [] Focus = "C13" -> IsoScenario(a)
Scenario(a) == [id |-> a, seed |-> Hash(a, 1, 77), ops |-> Ops(a)]
Spec == GenInit /\ [][GenNext(Scenario)]_k
=============================================================================
