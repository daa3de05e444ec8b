------------------------------ MODULE Gen_Data ------------------------------
(* Histories of the data layer.                                               *)
EXTENDS Gen_FEcat
NPoly(a, s, deg) == Poly(a, s, deg)
BdFn(a, s) == IF Rnd(a, s, 4) = 0 THEN [kind |-> Cyc(<<"abs", "top", "ramp", "bump">>, a, s + 9), abc |-> Abc(a, s + 1)] ELSE Poly(a, s + 2, Rnd(a, s + 3, 3))
Coord(a, s, i) == QS(RndIn(a, s + i, -5000, 5000), Cyc(<<7, 1, 100, 2048, 3>>, a, s))
TagCat == << <<1000, 1001, 1002, 1003>>, <<3, 1, 2>>, <<0>>, <<9, 8, 7, 6, 5, 4, 3, 2, 1, 11, 10, 20>>, <<7, 100, 5, 2, 1>>, <<1003, 1000>>, <<12, 4, 6, 1000, 0, 9>> >>
\* points per tag: often one, sometimes none
CountCat == <<1, 2, 3, 5, 1, 8, 0, 4, 37, 6, 2, 130>>
\* points may belong to several tags, or be listed twice under one
Shared(a, s, i) == Hash(a, s + 14, i) % 3 = 0
Idx(a, s, i, kk) == IF kk > 1 /\ Hash(a * 9 + i, s + 15, kk) % 5 = 0 THEN kk - 1 ELSE kk
BdOf(a, s, ncomp) == LET tags == Cyc(TagCat, a, s) IN
   [i \in 1..Len(tags) |->
      LET n0 == CountCat[(Hash(a, s + 7, i) % 12) + 1]  ii == IF Shared(a, s, i) THEN 1 ELSE i  n == IF n0 = 0 /\ i = 1 THEN 2 ELSE n0 IN
      [tag |-> tags[i], ret |-> Cyc(<<"same", "same", "float", "arr0", "arr1", "list">>, a, s + 8 * i),
       pts |-> [kk \in 1..n |-> <<Coord(a * 3 + ii, s + 9, 2 * Idx(a, s, i, kk)), Coord(a * 3 + ii, s + 10, 2 * Idx(a, s, i, kk) + 1)>>],
       f |-> [m \in 1..ncomp |-> BdFn(a * 5 + i, s + 11 + 50 * m)]]]
Mini == << <<1, 1>>, <<2, 1>>, <<1, 3>>, <<2, 2>>, <<3, 2>>, <<3, 3>>, <<4, 1>> >>
DSpace(o, a, s, d, vec, nb) ==
   [SpaceOp(o, a, s, d, vec) EXCEPT !.order = 2, !.qorder = 3] @@ [bd |-> BdOf(a, s + 20, nb), bdlists |-> (a % 3 = 0), bforder |-> (a % 2 = 0)]
TPts(a, s) == [i \in 1..(IF a % 5 = 2 THEN Cyc(<<150, 1100, 257>>, a, s) + Rnd(a, s, 60) ELSE 1 + Rnd(a, s, 6)) |-> <<Coord(a, s + 1, i), Coord(a, s + 2, i)>>]
HandlerOp(h, s, dtype, a, sd) == [op |-> "data.handler", obj |-> h, space |-> s, dtype |-> dtype, testpts |-> TPts(a, sd)]
On1(op, o) == [op |-> op, obj |-> o]
DT(a, s) == Cyc(<<"float32", "float64">>, a, s)
Dir(o, comp, scr) == [op |-> "data.dirichlet", obj |-> o, comp |-> comp, scribble |-> scr]
(*------------------------------- C14 --------------------------------------*)
\* boundary points of a real mesh
GeomSpace(a, s) == LET int == a % 2 = 0 IN
   << [op |-> "geo.new", obj |-> "g", kind |-> IF int THEN "internal" ELSE "external", ntx |-> 3, nty |-> 2, opt |-> TRUE],
      IF int THEN [op |-> "geo.internal", obj |-> "g", x |-> Cyc(MildLimits, a, s + 3), y |-> Cyc(MildLimits, a, s + 4), nx |-> 1 + Rnd(a, s, 2), ny |-> 1 + Rnd(a, s + 1, 2),
                   nb |-> Cyc(<<4, 8, 9, 15, 23, 40, 400, 1203>>, a, s + 5), lists |-> FALSE]
      ELSE [op |-> "geo.read", obj |-> "g", r |-> Rnd(a, s, 3), method |-> Cyc(<<"uniform", "lhs">>, a, s), file |-> "m.mesh", ref |-> 1,
            mesh |-> MeshFile(a, s, Cyc(<< <<1, 1>>, <<2, 1>>, <<2, 2>>, <<5, 3>> >>, a, s), 0, Cyc(Affines, a, s + 4), Cyc(TagSets, a, s + 5), (a % 4 # 1), "VEQ", 2, FALSE, FALSE)],
      [op |-> "fe.space", obj |-> "a", from |-> "g", order |-> 2, type |-> "legendre", qorder |-> 3, qtype |-> "gauss-legendre", trans |-> "bilinear", vector |-> FALSE,
       f |-> <<Poly(a, s + 50, 1)>>, bforder |-> (a % 3 = 0), bdf |-> [i \in 1..5 |-> <<BdFn(a * 7 + i, s + 30)>>]] >>
DirScenario(a) == LET m == a % 4  d == Cyc(Mini, a, 1) IN
   IF m = 0 THEN LET nb == 2 + (a % 3) IN      \* vector-valued
      << DSpace("a", a, 10, d, TRUE, nb) >> \o [i \in 1..(nb + 2) |-> Dir("a", PermG(nb, a, 3, i % nb), i % 2 = 0)]
   ELSE IF m = 1 THEN GeomSpace(a \div 4, 10) \o << Dir("a", -1, TRUE), HandlerOp("h", "a", DT(a \div 4, 1), a, 5), On1("data.hdirichlet", "h"), Dir("a", -1, FALSE) >>
   ELSE << DSpace("a", a, 10, d, FALSE, 1), Dir("a", -1, TRUE), HandlerOp("h", "a", DT(a, 1), a, 5), On1("data.hdirichlet", "h"),
           DSpace("b", a, 300, <<1, 1>>, FALSE, 1), HandlerOp("k", "b", DT(a, 2), a, 6), On1("data.hdirichlet", "k"), On1("data.hdirichlet", "h"),
           Dir("a", -1, FALSE), Dir("b", -1, TRUE), On1("data.hdirichlet", "k") >>
(*------------------------------- C15 --------------------------------------*)
Bad == <<"float64 string", "np.float64", "None", "32", "float", "tf.float32 string", "np.dtype", "tuple", "empty">>
TensorShapes == << <<2, 3>>, <<3, 4>>, <<2, 4>>, <<3, 3>>, <<4, 4>>, <<2, 5>> >>   \* order and quadrature order
TSpaceOp(o, a, s, d) == LET sh == IF d[1] * d[2] > 30 THEN <<2, 3>> ELSE Cyc(TensorShapes, a, s + 40) IN [DSpace(o, a, s, d, FALSE, 1) EXCEPT !.order = sh[1], !.qorder = sh[2]]
NewTest(o, a, s) == [op |-> "data.newtest", obj |-> o, testpts |-> TPts(a, s)]
\* the test points of a meshed domain, which is meshed again later
Grid(o, a, s) == [op |-> "geo.internal", obj |-> o, x |-> Cyc(MildLimits, a, s + 3), y |-> Cyc(MildLimits, a, s + 4), nx |-> 1 + Rnd(a, s, 2), ny |-> 1 + Rnd(a, s + 1, 2), nb |-> 8, lists |-> FALSE]
RealDomain(a, s) ==
   << [op |-> "geo.new", obj |-> "g", kind |-> "internal", ntx |-> 2 + Rnd(a, s, 4), nty |-> 2 + Rnd(a, s + 2, 3), opt |-> TRUE], Grid("g", a, s),
      [op |-> "data.handler", obj |-> "r", space |-> "a", dtype |-> DT(a, 3), dom |-> "g"], On1("data.testpts", "r"), Grid("g", a + 1, s + 10), On1("data.testpts", "r") >>
TensorScenario(a) == LET d == Cyc(<< <<1, 1>>, <<6, 6>>, <<2, 2>>, <<13, 5>>, <<3, 2>>, <<4, 4>>, <<2, 1>>, <<1, 33>>, <<3, 3>>, <<1, 3>>, <<10, 13>>, <<4, 1>>, <<21, 13>> >>, a, 1)  e == Cyc(Mini, a, 2) IN
   << TSpaceOp("a", a, 10, d), On1("data.tables", "a"), HandlerOp("h", "a", DT(a, 1), a, 5), On1("data.tensors", "h"), On1("data.testpts", "h"),
      [HandlerOp("x", "a", Cyc(Bad, a, 3), a, 7) EXCEPT !.obj = "x"], TSpaceOp("b", a, 300, e), On1("data.tables", "b"),
      HandlerOp("k", "b", DT(a, 2), a, 8), HandlerOp("j", "a", DT(a + 1, 1), a, 9), On1("data.tensors", "j"), On1("data.tensors", "k"),
      On1("data.testpts", "k"), NewTest("h", a, 12), On1("data.testpts", "h"), On1("data.testpts", "k"), NewTest("k", a, 13), On1("data.testpts", "h"), On1("data.testpts", "k"), On1("data.tensors", "h") >>
   \o (IF a % 4 = 1 THEN RealDomain(a, 30) ELSE <<>>)
(*------------------------------- C16 --------------------------------------*)
Counts == <<10, 2, 5, 20, 23, 7, 50, 100, 3, 11, 300, 1, 1100, 2503>>
Header == << <<"x", "y", "u">>, <<"X Coord", "Y-Coord", "value">>, <<"a", "b", "c", "d", "e">>, <<"y", "x", "u_exact", "x2">>, <<"0", "1", "2">> >>
\* distinct x, y, value in every row
IntCols(a, s) == Cyc(<< <<FALSE, FALSE, FALSE>>, <<TRUE, TRUE, TRUE>>, <<TRUE, FALSE, FALSE>>, <<FALSE, TRUE, FALSE>>, <<FALSE, FALSE, TRUE>>, <<TRUE, TRUE, FALSE>>, <<TRUE, FALSE, TRUE>>, <<FALSE, FALSE, FALSE>> >>, a, s)
TabRows(a, s, n) == LET int == IntCols(a, s) IN
   [i \in 1..n |-> LET x == PermG(n, a, s + 1, i - 1) y == PermG(n, a, s + 2, i - 1) u == PermG(n, a, s + 3, i - 1) IN
      <<IF int[1] THEN QS(3 * x - 20, 1) ELSE QS(37 * x - 200, 19), IF int[2] THEN QS(11 - 5 * y, 1) ELSE QS(55 - 13 * y, 1024),
        IF int[3] THEN QS(100 * u + 1, 1) ELSE QS(1001 * u - 777, Cyc(<<3, 1000000, 1>>, a, s))>>]
\* now and then a row without a value
Blanks(rows, a, s) == IF (a + s) % 4 # 0 \/ Len(rows) > 300 THEN rows ELSE [i \in 1..Len(rows) |-> IF Hash(a, s + 5, i) % 4 = 0 THEN [rows[i] EXCEPT ![3] = ""] ELSE rows[i]]
SensorX(base, a, s, n) == LET nr == Cyc(IF a % 12 = 7 THEN <<10050>> ELSE <<1, 2, 5, 30, 12, 70, 257, 1501>>, a, s + 1)  rows == Blanks(TabRows(a, s + 2, nr), a, s) IN
   base @@ [kind |-> "external", f |-> Poly(a, s + 5, 1), n |-> n, file |-> "t" \o ToString(nr) \o "_" \o ToString(s) \o ".csv", header |-> Cyc(Header, a, s + 6), rows |-> rows, int |-> IntCols(a, s + 2)]
SensorI(base, a, s, n0) == LET n == Max2(2, n0) IN base @@ [kind |-> "internal", f |-> IF Rnd(a, s, 5) = 0 THEN [kind |-> Cyc(<<"abs", "ramp", "bump">>, a, s + 9), abc |-> Abc(a, s + 1)] ELSE Poly(a, s + 2, 1 + Rnd(a, s + 3, 3)), n |-> n]
FeSensor(sp) == [op |-> "data.sensor", space |-> sp]
HSensor(h, sp, a) == [op |-> "data.hsensor", obj |-> h, space |-> sp, named |-> (a % 2 = 0)]
\* the file written under one name may be replaced by another table between requests
SensorScenario(a) == LET d == Cyc(Mini, a, 1)
      g == IF a % 3 = 0 THEN GeomSpace(a \div 3, 10) ELSE << DSpace("a", a, 10, d, FALSE, 1) >>
      base == SensorX(FeSensor("a"), a, 100, Cyc(Counts, a, 3))
      again == [SensorX(HSensor("h", "a", a), a, 150, Cyc(Counts, a, 4)) EXCEPT !.file = base.file] @@ [rewrite |-> TRUE] IN
   g \o << SensorI(FeSensor("a"), a, 60, Cyc(Counts, a, 1)), HandlerOp("h", "a", DT(a, 1), a, 5), SensorI(HSensor("h", "a", a), a, 70, Cyc(Counts, a, 2)),
           base, again, DSpace("b", a, 300, <<2, 1>>, FALSE, 1), HandlerOp("k", "b", DT(a, 2), a, 6),
           SensorI(HSensor("k", "b", a), a, 80, Cyc(Counts, a, 5)), SensorX(HSensor("k", "b", a), a, 200, Cyc(Counts, a, 6)), SensorI(HSensor("h", "a", a), a, 90, Cyc(Counts, a, 7)) >>
(*------------------------------- C17 --------------------------------------*)
NumCat == <<"1", "0", "-1", "3/10", "-1/7", "1000000007", "1/1000000000", "-123456789012345678", "10000000000000000000000000000000000000", "1/100000000000000000000000000000000000", "2", "16777217">>
KeyCat == << <<"eps">>, <<"eps", "b_x", "b_y", "c">>, <<"k", "eps", "f">>, <<"c", "b_y", "b_x", "eps", "extra", "z">>, <<>>, <<"1", "a b">>, <<"p01", "p02", "p03", "p04", "p05", "p06", "p07", "p08", "p09", "p10", "p11", "p12">> >>
ParamVal(key, a, s) == LET kd == Cyc(<<"float", "int", "list", "npf32", "np0", "np1", "npint", "np2", "tuple", "float", "float">>, a, s)
      v(i) == Cyc(NumCat, a, s + i)  small(i) == QS(RndIn(a, s + i, -500, 500), 1) IN
   << key, kd, CASE kd \in {"float", "np0"} -> v(1) [] kd \in {"int"} -> small(1) [] kd = "npf32" -> QS(RndIn(a, s + 1, -900, 900), 8)
        [] kd \in {"list", "tuple"} -> [i \in 1..(1 + Rnd(a, s, 3)) |-> v(i)] [] kd = "np1" -> [i \in 1..(IF a % 3 = 0 THEN 40 ELSE 1 + Rnd(a, s, 4)) |-> v(i)]
        [] kd = "npint" -> [i \in 1..3 |-> small(i)] [] kd = "np2" -> [i \in 1..2 |-> [j \in 1..(1 + Rnd(a, s, 3)) |-> v(3 * i + j)]] >>
UserOp(name, mode, a, s) == LET keys == Cyc(KeyCat, a, s) IN
   [op |-> "data.userfn", name |-> name, mode |-> mode, dicts |-> [i \in 1..3 |-> [kk \in 1..Len(keys) |-> ParamVal(keys[kk], a * 11 + kk, s + 100 * i)]]]
ParamOp(h, which, src, res) == [op |-> "data.params", obj |-> h, which |-> which, src |-> src, res |-> res]
Recheck(h, res) == [op |-> "data.recheck", obj |-> h, res |-> res]
WhichP(a, s) == Cyc(<<"bilinear", "inverse">>, a, s)
ParamScenario(a) ==
   << DSpace("a", 1, 10, <<1, 1>>, FALSE, 1), HandlerOp("h", "a", DT(a, 1), a, 5), HandlerOp("k", "a", DT(a + Rnd(a, 3, 2), 1), a, 6),
      UserOp("p", Cyc(<<"fresh", "shared", "const">>, a, 1), a, 20), UserOp("q", Cyc(<<"const", "shared", "fresh">>, a, 2), a, 700),
      ParamOp("h", WhichP(a, 1), "p", "1"), ParamOp("k", WhichP(a, 2), "p", "2"), Recheck("h", "1"), ParamOp("h", WhichP(a, 3), "q", "3"),
      ParamOp("h", WhichP(a, 4), "p", "4"), ParamOp("k", WhichP(a, 5), "q", "5"), Recheck("h", "1"), Recheck("k", "2"), Recheck("h", "3"), Recheck("h", "4"), Recheck("k", "5") >>
Ops(a) == CASE Focus = "C14" -> DirScenario(a) [] Focus = "C15" -> TensorScenario(a) [] Focus = "C16" -> SensorScenario(a) [] Focus = "C17" -> ParamScenario(a)
Scenario(a) == [id |-> a, seed |-> Hash(a, 1, 77), ops |-> Ops(a)]
Spec == GenInit /\ [][GenNext(Scenario)]_k
=============================================================================
