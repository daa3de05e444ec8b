---------------------------- MODULE Gen_Geometry ----------------------------
(* Histories of Geometry_2D calls: internal and external sessions.            *)
EXTENDS GenMesh
NewOp(o, kind, ntx, nty, opt) == [op |-> "geo.new", obj |-> o, kind |-> kind, ntx |-> ntx, nty |-> nty, opt |-> opt]
TPCounts == <<1, 2, 3, 5, 7, 10, 17, 32, 50, 101>>
\* keep the number of cells within reason: at most 700 per mesh
NY(nx, ny) == IF nx * ny <= 700 THEN ny ELSE Max2(1, 700 \div nx)
InternalOp(o, a, s) == LET nx == Cyc(CellCounts, a, s + 1) IN
   [op |-> "geo.internal", obj |-> o, x |-> Cyc(Limits, a, s + 3), y |-> Cyc(Limits, a, s + 4), nx |-> nx,
    ny |-> NY(nx, Cyc(CellCounts, a, s + 2)), nb |-> Cyc(BdCounts, a, s + 5), lists |-> (a % 2 = 0), arrays |-> (a % 4 = 3), ints |-> (a % 3 # 0)]
\* the same request, but for one thing
OneChanged(o, a, s) == LET b == InternalOp(o, a, s) c == InternalOp(o, a + 1, s + 40) w == Rnd(a, s + 8, 6) IN
   CASE w = 0 -> [b EXCEPT !.y = IF c.y = b.y THEN <<"17/4", "9">> ELSE c.y] [] w = 1 -> [b EXCEPT !.x = IF c.x = b.x THEN <<"17/4", "9">> ELSE c.x]
     [] w = 2 -> [b EXCEPT !.nb = c.nb] [] w = 3 -> [b EXCEPT !.ny = 1 + (b.ny % 4)] [] w = 4 -> [b EXCEPT !.nx = 1 + (b.nx % 4), !.ny = Min2(b.ny, 100)] [] w = 5 -> [b EXCEPT !.x = b.y, !.y = b.x]
\* too few boundary points for one per side
FewOp(o, a, s) == [InternalOp(o, a, s) EXCEPT !.nb = 1 + Rnd(a, s + 9, 3)]
AgainOp(o) == [op |-> "geo.recheck", obj |-> o]
TestOp(o) == [op |-> "geo.testpts", obj |-> o]
\* a mild internal mesh that gmsh can mesh quickly
SmallInternal(o, a, s) == LET w == Cyc(<<<<"0", "1">>, <<"-1", "1">>, <<"2", "7/2">>>>, a, s + 3) IN
   [op |-> "geo.internal", obj |-> o, x |-> w, y |-> Cyc(<<<<"0", "1">>, <<"-2", "-1">>, <<"10", "23/2">>>>, a, s + 4), nx |-> RndIn(a, s, 1, 4), ny |-> RndIn(a, s + 1, 1, 5), nb |-> 12]
Names == << <<"u">>, <<"Sol", "Exact", "Error">>, <<"a", "b">>, <<"c5", "c4", "c3", "c2", "c1">>, <<"u", "u">>, <<"p", "q", "r", "s">>, <<"x", "y", "x">>, <<"u_1", "u_10", "u_2">>,
           <<"n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11", "n12">> >>
\* names of the file to write: any name is taken as it is
OutNames == <<"one.vtk", "run.1", "run.2", "solution", "u.v2.vtk", "out.dat", "one.VTK", "fields.vtu", "a b.vtk", "one.vtk.bak", ".vtk", "run.1">>
Forms == <<"plain", "fortran", "float32", "special", "int", "view", "special">>
VtkOp(o, kind, a, s, folder, file, cols, names) ==
   [form |-> Cyc(Forms, a, s + 9), op |-> "geo.vtk", obj |-> o, kind |-> kind, seed |-> Hash(a, s, 41), folder |-> folder, file |-> file, cols |-> cols, names |-> names]
VtkAny(o, kind, a, s, file) == LET nm == Cyc(Names, a, s) IN
   VtkOp(o, kind, a, s, Cyc(<<"out", "out/deep", "res", "out.d/v1.0">>, a, s + 1), IF a % 2 = 0 THEN file ELSE Cyc(OutNames, a \div 2, s), Len(nm), nm)
VtkBad(o, kind, a, s) == LET nm == Cyc(Names, a, s) IN VtkOp(o, kind, a, s, "out", "bad.vtk", Len(nm) + (IF a % 2 = 0 \/ Len(nm) = 1 THEN 1 ELSE -1), nm)

InternalSession(a) ==
   << NewOp("a", "internal", Cyc(TPCounts, a, 1), Cyc(TPCounts, a, 2), TRUE), InternalOp("a", a, 10), TestOp("a"), TestOp("a") >>
   \o (IF a % 3 = 0 THEN << NewOp("b", "internal", Cyc(TPCounts, a, 3), Cyc(TPCounts, a, 4), TRUE), InternalOp("b", a, 20), TestOp("b"), TestOp("a") >> ELSE <<>>)
   \o (IF a % 2 = 0 THEN << InternalOp("a", a, 30), TestOp("a") >> ELSE << OneChanged("a", a, 10), TestOp("a") >>)
   \o (IF a % 3 = 1 THEN << OneChanged("a", a, 30), TestOp("a"), FewOp("a", a, 50), TestOp("a"), AgainOp("a") >> ELSE <<>>)
   \o (IF a % 3 # 1 THEN << AgainOp("a") >> ELSE <<>>)
\* with the mesh file of gmsh, exports and test points in between
PlainSession(a) ==
   << NewOp("a", "internal", Cyc(<<2, 3, 4, 6>>, a, 1), Cyc(<<2, 5, 3, 7>>, a, 2), FALSE), SmallInternal("a", a, 10), TestOp("a"), AgainOp("a"),
      VtkAny("a", "internal", a, 11, "one.vtk"), AgainOp("a"), NewOp("b", "internal", 3, 2, TRUE), InternalOp("b", a, 12), SmallInternal("a", a, 14),
      VtkAny("a", "internal", a, 15, "three.vtk"), AgainOp("b"), AgainOp("a"), TestOp("a"), TestOp("b") >>
InternalVtkSession(a) ==
   << NewOp("a", "internal", Cyc(<<2, 3, 4, 6>>, a, 1), Cyc(<<2, 5, 3, 7>>, a, 2), FALSE), SmallInternal("a", a, 10), TestOp("a"),
      VtkAny("a", "internal", a, 11, "one.vtk"), VtkBad("a", "internal", a, 12), VtkAny("a", "internal", a, 13, "two.vtk"),
      SmallInternal("a", a, 14), VtkAny("a", "internal", a, 15, "three.vtk"), TestOp("a") >>

\* many points per edge on small meshes only
Level(a, s, d) == IF d[1] * d[2] > 40 THEN Rnd(a, s, 2) ELSE IF d[1] + d[2] <= 4 THEN Cyc(<<0, 5, 1, 6, 3, 7, 2, 4, 9>>, a, s) ELSE Cyc(<<0, 1, 2, 3, 4>>, a, s)
XDims == Dims \o << <<1, 2>>, <<12, 10>>, <<1, 1>>, <<19, 18>>, <<2, 2>> >>
XOrders == <<"VEQ", "VQE", "VTEQ", "EVQ", "QVE", "VQTE", "EQV", "TQEV">>
Tris(a, s) == IF a % 2 = 0 THEN << <<1, 2, 3>> >> ELSE << <<4, 1, 3>>, <<2, 3, 4>> >>
ReadOp(o, a, s, method) == LET d == Cyc(XDims, a, s + 1) IN
   [op |-> "geo.read", obj |-> o, r |-> Level(a, s + 2, d), path |-> (a % 6 = 2), method |-> method, file |-> o \o ".mesh", ref |-> a % 3,
    mesh |-> MeshFile(a, s, d, Cyc(<<0, 1, 2>>, a, s + 3), Cyc(Affines, a, s + 4), Cyc(TagSets, a, s + 5), (a + s) % 4 = 1,
                      Cyc(XOrders, a + ((a - 1) \div 2), s + 6), 2 + Rnd(a, s + 7, 2), Rnd(a, s + 8, 3) = 0, FALSE) @@ [tris |-> Tris(a, s)]]
\* the same mesh with its points listed the other way round
Backwards(op) == LET n == Len(op.mesh.pts) IN
   [op EXCEPT !.mesh.pts = [v \in 1..n |-> op.mesh.pts[n + 1 - v]], !.mesh.quads = [c \in DOMAIN @ |-> [i \in 1..4 |-> n + 1 - @[c][i]]],
              !.mesh.edges = [e \in DOMAIN @ |-> <<n + 1 - @[e][1], n + 1 - @[e][2], @[e][3]>>], !.mesh.tris = [t \in DOMAIN @ |-> [i \in 1..3 |-> n + 1 - @[t][i]]]]
Method(a, s) == IF Focus = "C04" THEN Cyc(<<"uniform", "lhs">>, a, s) ELSE Cyc(<<"uniform", "lhs", "uniform">>, a, s)
BadRead(o, a, s) == IF a % 2 = 0 THEN [ReadOp(o, a, s, "uniform") EXCEPT !.file = o \o Cyc(<<".mesh.meshb", ".vtk", ".mesh.vtk", ".msh", ".meshb", ".txt", ".mesh.msh", ".MESH", ".mesh.vtu", "mesh", ".mesh.gz", ".mesh.bak", ".Mesh", ".mesh~", ".vtu">>, a \div 2, s)]
                    ELSE ReadOp(o, a, s, Cyc(<<"random", "Uniform", "LHS", "uniform ", "">>, a \div 2, s))
ExternalSession(a) ==
   << NewOp("a", "external", 2, 3, FALSE), ReadOp("a", a, 50, Method(a, 1)), TestOp("a") >>
   \o (IF a % 4 = 0 THEN << ReadOp("a", a, 60, Method(a, 2)), TestOp("a") >> ELSE <<>>)
   \o (IF a % 2 = 1 THEN << Backwards(ReadOp("a", a, IF a % 4 = 0 THEN 60 ELSE 50, Method(a, 5))), TestOp("a") >> ELSE <<>>)
   \o (IF a % 5 = 0 THEN << NewOp("b", "external", 5, 1, TRUE), ReadOp("b", a, 70, Method(a, 3)), TestOp("a"), TestOp("b") >> ELSE <<>>)
   \o (IF a % 3 = 0 THEN << NewOp("c", "external", 2, 2, FALSE), BadRead("c", a, 80) >> ELSE <<>>)
   \o (IF a % 4 = 2 THEN << VtkAny("a", "external", a, 81, "one.vtk"), ReadOp("a", a, 90, Method(a, 4)) >> ELSE <<>>)
   \o (IF a % 4 # 1 THEN << AgainOp("a") >> ELSE <<>>)
ExternalVtkSession(a) ==
   << NewOp("a", "external", 2, 3, FALSE), ReadOp("a", a, 50, "uniform"), TestOp("a"), VtkAny("a", "external", a, 51, "one.vtk"),
      VtkBad("a", "external", a, 52), VtkAny("a", "external", a, 53, "two.vtk") >>
   \o (IF a % 2 = 0 THEN << VtkAny("a", "external", a, 54, "one.vtk") >> ELSE <<>>)
   \o (IF a % 3 = 0 THEN << ReadOp("a", a, 55, "lhs"), VtkAny("a", "external", a, 56, "three.vtk"), TestOp("a") >> ELSE <<>>)
\* extremes: a mesh with many cells, long thin meshes
BigInternal(a) == << NewOp("a", "internal", <<150, 100, 2, 257, 200, 12, 31, 64>>[a], <<40, 100, 300, 3, 30, 200, 129, 65>>[a], TRUE),
   [op |-> "geo.internal", obj |-> "a", x |-> <<"0", "1">>, y |-> <<"-1", "1">>, nx |-> <<120, 1, 48, 500, 90, 1000, 1, 257>>[a], ny |-> <<3, 150, 36, 2, 70, 1, 1025, 5>>[a], nb |-> <<2000, 5000, 1999, 10000, 400, 4000, 801, 1200>>[a], lists |-> FALSE], TestOp("a"), AgainOp("a") >>
BigExternal(a) == << NewOp("a", "external", 2, 3, FALSE), [ReadOp("a", a, 50, Cyc(<<"uniform", "lhs">>, a, 1)) EXCEPT !.r = 1 + (a % 2),
      !.mesh = MeshFile(a, 50, IF a = 1 THEN <<36, 30>> ELSE <<7, 130>>, Cyc(<<2, 1>>, a, 3), Cyc(Affines, a, 54), Cyc(TagSets, a, 55), a % 2 = 0, "VEQ", 2, TRUE, FALSE) @@ [tris |-> Tris(a, 1)]], TestOp("a"), AgainOp("a") >>
Ops(a) == CASE Focus \in {"C01", "C02"} -> (IF a <= 8 THEN BigInternal(a) ELSE IF a % 5 = 0 THEN PlainSession(a) ELSE InternalSession(a))
            [] Focus \in {"C03", "C04"} -> IF a <= 2 THEN BigExternal(a) ELSE ExternalSession(a)
            [] Focus = "C05" -> (IF a <= 5 THEN BigInternal(a) ELSE IF a % 2 = 0 THEN InternalSession(a \div 2) ELSE ExternalSession((a + 1) \div 2))
            [] Focus = "C06" -> (IF a % 3 = 0 THEN InternalVtkSession(a \div 3) ELSE ExternalVtkSession(a - (a \div 3)))
Scenario(a) == [id |-> a, seed |-> Hash(a, 1, 77), ops |-> Ops(a)]
Spec == GenInit /\ [][GenNext(Scenario)]_k
=============================================================================
