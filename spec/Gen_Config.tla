----------------------------- MODULE Gen_Config -----------------------------
(* Documented combinations and single deviations from them (C23).              *)
EXTENDS GenLib
Vals(o) == CASE o = "mesh_type" -> <<"quadrilateral">> [] o = "source" -> <<"internal", "external">> [] o = "suffix" -> <<".mesh">> [] o = "sampling" -> <<"uniform", "lhs">>
   [] o = "cell_type" -> <<"quadrilateral">> [] o = "basis" -> <<"legendre", "jacobi", "legendre_special", "chebyshev_2", "jacobi_plain">> [] o = "quad" -> <<"gauss-legendre", "gauss-jacobi">>
   [] o = "map" -> <<"affine", "bilinear">> [] o = "dtype" -> <<"tf:float32", "tf:float64">> [] o = "order" -> <<2, 3, 4, 5>> [] o = "qorder" -> <<3, 4, 5, 7>>
Opts(c) == CASE c = "geometry" -> <<"mesh_type", "source">> [] c = "read" -> <<"suffix", "sampling">> [] c = "basis" -> <<"cell_type", "order", "basis", "quad">> [] c = "quadrature" -> <<"cell_type", "qorder", "quad", "basis">>
   [] c = "rule" -> <<"quad">> [] c = "transformation" -> <<"cell_type", "map", "basis", "quad">> [] c = "space" -> <<"cell_type", "order", "basis", "qorder", "quad", "map">> [] c = "handler" -> <<"dtype">>
   [] c = "sensors" -> <<"source">> [] c = "model" -> <<"dtype">>
\* values somebody might try instead (orders: numbers on and beyond the limits, some of them allowed)
Hows == <<"upper", "lead", "trail", "prefix", "plural", "cap", "dash", "empty", "joined", "nl", "space", "more", "short", "suffix", "twice", "tab", "quoted", "swap">>
Others(o) == CASE o = "mesh_type" -> <<"=triangle", "=quad", "=tri", "=hexahedral", "=#None", "=quadrilaterals", "=QUAD", "=#list">>
   [] o = "source" -> <<"=gmsh", "=external_mesh", "=Internal", "=#None", "=file", "=both", "=internal/external", "=#0">>
   [] o = "suffix" -> <<"=.msh", "=.vtk", "=.vtu", "=.txt", "=.MESH", "=.mesh3d", "=.meshb", "=.mesh.txt", "=.mesh ", "=.xml", "=.Mesh", "=.mesh~", "=.obj", "=.xdmf">>
   [] o = "sampling" -> <<"=random", "=latin", "=LHS", "=#None", "=grid", "=uniform_random", "=#0", "=sobol">>
   [] o = "cell_type" -> <<"=triangle", "=quad", "=tetra", "=#None", "=hexahedron", "=quadrilateral_2", "=#1">>
   [] o = "basis" -> <<"=lagrange", "=chebyshev", "=chebyshev_1", "=jacobi_special", "=legendre_plain", "=special", "=#None", "=monomial", "=chebyshev_2_special">>
   [] o = "quad" -> <<"=gauss-lobatto", "=gauss", "=legendre", "=jacobi", "=#None", "=gauss_legendre", "=gauss-chebyshev", "=newton-cotes", "=gauss-jacobi-lobatto">>
   [] o = "map" -> <<"=linear", "=isoparametric", "=quadaffine", "=#None", "=biquadratic", "=trilinear", "=#0">>
   [] o = "dtype" -> <<"=np:float32", "=str:float32", "=#None", "=np:float64", "=#float", "=str:float64", "=str:tf.float32", "=#dtype", "=str:double">>
OrderEdges == <<1, 999, 1000, 0, 6, -1, 1001, 12, -3, 998, 5000, 7>>
QOrderEdges == <<2, 8, 1, 0, 20, -1, 11, -5, 12, 6, 9>>
Num(o) == o \in {"order", "qorder"}
\* the space is costly for high orders, so limits are tried where the check is made
SpaceEdges == <<1, 2, 0, -2>>
SpaceQEdges == <<2, 3, 1, 0, -4>>
Record(names, f) == [n \in {names[i] : i \in 1..Len(names)} |-> f[n]]
Pick(a, s, o) == LET vs == Vals(o) IN Cyc(vs, a, s)
\* kinds: which options, values, and one deviation
Call(a, s, c, dev, how, edge) == [op |-> "cfg.call", call |-> c, dev |-> dev, how |-> how, stem |-> Cyc(<<"m", "a.b", "m.mesh", "a mesh", "m.msh", "x">>, a, s + 40), kind |-> Cyc(<<"std", "hard", "inverse", "domain">>, a, s + 41),
   opts |-> [o \in {Opts(c)[i] : i \in 1..Len(Opts(c))} |-> IF Num(o) THEN (IF o = dev THEN edge ELSE Pick(a, s + 3, o)) ELSE Pick(a, s + (CASE o = "basis" -> 5 [] o = "quad" -> 6 [] o = "map" -> 7 [] OTHER -> 8), o)]]
Calls == <<"geometry", "read", "basis", "quadrature", "rule", "transformation", "space", "handler", "sensors", "model">>
Fine(a, s, c) == Call(a, s, c, "", "", 0)
\* a wrong value of one option: an alteration of a documented value, or another plausible name
Wrong(a, s, c, o) == IF Num(o) THEN Call(a, s, c, o, "", Cyc(IF c = "space" THEN (IF o = "order" THEN SpaceEdges ELSE SpaceQEdges) ELSE IF o = "order" THEN OrderEdges ELSE QOrderEdges, a, s + 50))
   ELSE Call(a, s, c, o, IF Rnd(a, s + 51, 2) = 0 /\ ~(o \in {"dtype", "suffix"}) THEN Cyc(Hows, a, s + 52) ELSE Cyc(Others(o), a, s + 53), 0)
\* all (call, option) pairs
Pairs == << <<"geometry", "mesh_type">>, <<"geometry", "source">>, <<"read", "suffix">>, <<"read", "sampling">>, <<"basis", "cell_type">>, <<"basis", "order">>, <<"basis", "basis">>, <<"quadrature", "cell_type">>,
   <<"quadrature", "qorder">>, <<"quadrature", "quad">>, <<"rule", "quad">>, <<"transformation", "cell_type">>, <<"transformation", "map">>, <<"space", "cell_type">>, <<"space", "order">>, <<"space", "basis">>,
   <<"space", "qorder">>, <<"space", "quad">>, <<"space", "map">>, <<"handler", "dtype">>, <<"sensors", "source">>, <<"model", "dtype">> >>
\* every limit of an order together with every other option, in turn
Combo(a, c, o, edges) == LET n == Len(edges) j == (a - 1) % (n * 10)  q == Call(a, 31000, c, o, "", edges[(j % n) + 1]) IN
   [q EXCEPT !.opts = [x \in DOMAIN @ |-> IF x = "basis" THEN Vals("basis")[((j \div n) % 5) + 1] ELSE IF x = "quad" THEN Vals("quad")[((j \div (5 * n)) % 2) + 1] ELSE @[x]]]
Combos(a) == [i \in 1..4 |-> Combo(4 * a + i, "quadrature", "qorder", QOrderEdges)] \o [i \in 1..4 |-> Combo(4 * a + i, "basis", "order", OrderEdges)]
   \o [i \in 1..2 |-> Combo(2 * a + i, "space", "qorder", SpaceQEdges)] \o [i \in 1..2 |-> Combo(2 * a + i, "space", "order", SpaceEdges)]
Ops(a) == [i \in 1..Len(Calls) |-> Fine(a, i * 100, Calls[i])]
   \o [i \in 1..Len(Pairs) |-> Wrong(a, 2000 + i * 100, Pairs[i][1], Pairs[i][2])]
   \o [i \in 1..4 |-> Call(a, 9000 + i * 100, "basis", "order", "", Cyc(OrderEdges, a, 9100 + i))]
   \o [i \in 1..3 |-> Fine(a, 12000 + i * 100, Cyc(Calls, a, 12000 + i))]
   \o Combos(a)
   \o (IF Thorough THEN [i \in 1..Len(Pairs) |-> Wrong(a, 20000 + i * 100, Pairs[i][1], Pairs[i][2])] ELSE <<>>)
Scenario(a) == [id |-> a, seed |-> Hash(a, 1, 77), ops |-> Ops(a)]
Spec == GenInit /\ [][GenNext(Scenario)]_k
=============================================================================
