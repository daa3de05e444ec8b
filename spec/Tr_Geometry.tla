----------------------------- MODULE Tr_Geometry -----------------------------
(* Binds the actions of Geometry to recorded calls of Geometry_2D.            *)
EXTENDS Geometry, TraceBase
vars == <<objs, files, l, bad>>
View == <<l>>
Init == GInit /\ BInit

TStart == IsOp("start") /\ objs' = <<>> /\ files' = <<>> /\ Consume({})

TNew == /\ IsOp("geo.new")
        /\ New(E.obj, [kind |-> E.kind, ntx |-> E.ntx, nty |-> E.nty, folder |-> E.folder, mesh |-> NoMesh, hist |-> <<>>])
        /\ Consume(C(Prop, "a documented configuration is accepted", E.ok))

(*------------------------------- internal --------------------------------*)
IMesh == [kind |-> "internal", x |-> E.x, y |-> E.y, nx |-> E.nx, ny |-> E.ny, nb |-> E.nb]
Scale(m) == MaxAbs(<<m.x, m.y>>)
ITol(m) == Tol(Scale(m), 48)
CellsOK(m, cells) == IsArr(cells, <<NCells(m), 4, 2>>) /\ AllClose(cells, GridCells(m), ITol(m))
MeshObjectOK(m) == /\ IsArr(E.mpts, <<Len(E.mpts), 2>>)
                   /\ Len(E.conn) = NCells(m)
                   /\ \A c \in 1..NCells(m) :
                        /\ Len(E.conn[c]) = 4
                        /\ \A i \in 1..4 : E.conn[c][i] \in 0..(Len(E.mpts) - 1)
                        /\ SameCorners(GridCell(m, c), [i \in 1..4 |-> E.mpts[E.conn[c][i] + 1]], ITol(m))
   /\ \A p \in Rng(E.mpts) : RLeq(RSub(m.x[1], ITol(m)), p[1]) /\ RLeq(p[1], RAdd(m.x[2], ITol(m)))
                             /\ RLeq(RSub(m.y[1], ITol(m)), p[2]) /\ RLeq(p[2], RAdd(m.y[2], ITol(m)))
Group(b, t) == (CHOOSE k \in DOMAIN b : b[k].tag = t)
\* position of p along its side, as a fraction
SidePar(m, t, p) == IF t \in {1000, 1002} THEN RDiv(RSub(p[1], m.x[1]), RSub(m.x[2], m.x[1]))
                    ELSE RDiv(RSub(p[2], m.y[1]), RSub(m.y[2], m.y[1]))
ParTol(m) == RDiv(ITol(m), RMin2(RSub(m.x[2], m.x[1]), RSub(m.y[2], m.y[1])))
BdTagsOK(b) == Len(b) = 4 /\ {b[k].tag : k \in DOMAIN b} = Rng(Tags)
BdCountOK(m, b) == \A k \in DOMAIN b : IsArr(b[k].pts, <<PerSide(m), 2>>)
BdSideOK(m, b) == \A k \in DOMAIN b : LET s == Side(m, b[k].tag) IN
   \A p \in Rng(b[k].pts) : OnSegment(p, s[1], s[2], ITol(m))
BdSpreadOK(m, b) == \A k \in DOMAIN b :
   Stratified([i \in 1..PerSide(m) |-> SidePar(m, b[k].tag, b[k].pts[i])], PerSide(m), ParTol(m))
BdOK(m, b) == BdTagsOK(b) /\ BdCountOK(m, b) /\ BdSideOK(m, b) /\ BdSpreadOK(m, b)
TInternal == /\ IsOp("geo.internal")
   /\ LET m == IMesh IN
      /\ IF E.ok THEN SetMesh(E.obj, m) ELSE UNCHANGED gvars
      \* a request for fewer than four boundary points may be refused instead
      /\ Consume(IF ~E.ok THEN C(Prop, "an internal mesh is generated", m.nb < 4) ELSE
           C("C01", "cells are the grid rectangles in order, counter-clockwise from the lower-left", CellsOK(m, E.cells))
           \cup C("C01", "the object keeps the cells it returned", CellsOK(m, E.attr_cells))
           \cup C("C01", "the published mesh has the same cells, referring to its points by index", MeshObjectOK(m))
           \cup Then(C("C02", "exactly the four side tags", BdTagsOK(E.bd)),
                Then(C("C02", "a quarter of the requested points per side", BdCountOK(m, E.bd)),
                     C("C02", "every boundary point lies on the side of its tag", BdSideOK(m, E.bd))
                     \cup C("C02", "one point in every equal piece of the side", BdSpreadOK(m, E.bd))))
           \cup C("C02", "the object keeps the boundary points it returned", E.attr_bd = E.bd))

(*------------------------------- external --------------------------------*)
XMesh == [kind |-> "external", pts |-> E.pts, quads |-> E.quads, edges |-> E.edges, r |-> E.r, method |-> E.method]
XTol == Tol(MaxAbs(E.pts), 46)
XCellsOK(m, cells) == \A c \in 1..Len(m.quads) : SameCorners(FileCell(m, c), cells[c], R0)
XccwOK(m, cells) == \A c \in 1..Len(m.quads) : StrictlyConvexCCW(cells[c])
\* matching of observed points with the points the specification expects
Near(p, q) == AllClose(p, q, XTol)
UniformOK(m, tag, pts) == LET K == UniformKeys(m, tag) IN
   /\ Len(pts) = Cardinality(K)
   /\ \A k \in K : LET q == UniformPoint(m, k) IN \E i \in DOMAIN pts : Near(pts[i], q)
   /\ \A i \in DOMAIN pts : \E k \in K : Near(pts[i], UniformPoint(m, k))
\* the nearest edge of the tag
PA(m, k) == m.pts[m.edges[k][1]]
PB(m, k) == m.pts[m.edges[k][2]]
OnEdge(m, k, p) == OnSegment(p, PA(m, k), PB(m, k), XTol)
OnOwnEdgesT(m, tag, pts, tol) == \A i \in DOMAIN pts : \E k \in EdgesOf(m, tag) : OnSegment(pts[i], PA(m, k), PB(m, k), tol)
LhsOK(m, tag, pts) == LET n == Pow2(m.r) + 1 IN
   /\ Len(pts) = n * Cardinality(EdgesOf(m, tag))
   /\ \A k \in EdgesOf(m, tag) :
        LET mine == SelectSeq(pts, LAMBDA p : OnEdge(m, k, p))
        IN Stratified([i \in DOMAIN mine |-> SegParam(mine[i], PA(m, k), PB(m, k))], n,
                      RDiv(XTol, MaxAbs(PSub(PB(m, k), PA(m, k)))))
OnOwnEdges(m, tag, pts) == \A i \in DOMAIN pts : \E k \in EdgesOf(m, tag) : OnEdge(m, k, pts[i])
XBdTagsOK(m, b) == Len(b) = Cardinality(EdgeTags(m)) /\ {b[k].tag : k \in DOMAIN b} = EdgeTags(m)
XBdNums(b) == \A k \in DOMAIN b : IsArr(b[k].pts, <<Len(b[k].pts), 2>>)
Known(m) == m.method \in {"uniform", "lhs"}
TRead == /\ IsOp("geo.read")
   /\ LET m == XMesh IN
      IF ~(Known(m) /\ E.suffix = ".mesh")
      THEN \* refused; whatever the object knew before is no longer relied upon
           /\ UNCHANGED gvars
           /\ Consume(C("C03", "a file of another format is refused", E.suffix # ".mesh" => ~E.ok)
                      \cup C("C04", "an unknown sampling method is refused", ~Known(m) => ~E.ok))
      ELSE /\ SetMesh(E.obj, m)
           /\ Consume(IF ~E.ok THEN C(Prop, "a mesh file in the supported format is read", FALSE) ELSE
                Then(C("C03", "exactly one cell per quadrilateral of the file", IsArr(E.cells, <<Len(m.quads), 4, 2>>)),
                     C("C03", "cells keep file order and corners", XCellsOK(m, E.cells))
                     \cup C("C03", "corners run counter-clockwise", XccwOK(m, E.cells))
                     \cup C("C03", "the object keeps the cells it returned", E.attr_cells = E.cells))
                \cup Then(C("C04", "one group per boundary tag of the file", XBdTagsOK(m, E.bd)),
                     Then(C("C04", "boundary points are numbers", XBdNums(E.bd)),
                          C("C04", "boundary points lie on the edges of their tag",
                              \A k \in DOMAIN E.bd : OnOwnEdges(m, E.bd[k].tag, E.bd[k].pts))
                          \cup C("C04", "uniform sampling yields the equally spaced points of each edge once",
                              m.method = "uniform" => \A k \in DOMAIN E.bd : UniformOK(m, E.bd[k].tag, E.bd[k].pts))
                          \cup C("C04", "random sampling yields one point per sub-interval of each edge",
                              m.method = "lhs" => \A k \in DOMAIN E.bd : LhsOK(m, E.bd[k].tag, E.bd[k].pts))
                          \cup C("C04", "the object keeps the boundary points it returned", E.attr_bd = E.bd))))

(*--------------- the same objects again, after later calls ----------------*)
InternalFails(m, cells, b) == C("C01", "cells handed out earlier stay the grid rectangles, whatever is called later", CellsOK(m, cells))
   \cup C("C02", "boundary points handed out earlier stay as they were, whatever is called later", BdTagsOK(b) /\ BdCountOK(m, b) /\ BdSideOK(m, b) /\ BdSpreadOK(m, b))
ExternalFails(m, cells, b) ==
   C("C03", "cells handed out earlier stay those of their file, whatever is called later",
       IsArr(cells, <<Len(m.quads), 4, 2>>) /\ XCellsOK(m, cells) /\ XccwOK(m, cells))
   \cup C("C04", "boundary points handed out earlier stay on the edges of their tag, whatever is called later",
       /\ XBdTagsOK(m, b) /\ XBdNums(b)
       /\ \A k \in DOMAIN b : OnOwnEdgesT(m, b[k].tag, b[k].pts, Tol(MaxAbs(m.pts), 46)))
Fails(m, cells, b) == IF m.kind = "internal" THEN InternalFails(m, cells, b) ELSE ExternalFails(m, cells, b)
TRecheck == /\ IsOp("geo.recheck") /\ Query
   /\ LET o == objs[E.obj] IN
      Consume(IF ~E.ok \/ Len(E.held) # Len(o.hist) THEN C(Prop, "the meshes can be looked at again", FALSE)
              ELSE UNION {Fails(o.hist[g], E.held[g].cells, E.held[g].bd) : g \in DOMAIN o.hist}
                   \cup Fails(o.mesh, E.attr_cells, E.attr_bd)
                   \cup (IF o.mesh.kind = "internal" THEN C("C01", "the published mesh has the same cells, referring to its points by index", MeshObjectOK(o.mesh)) ELSE {}))

(*------------------------------ test points ------------------------------*)
TPTol(o, m) == IF m.kind = "internal" THEN ITol(m) ELSE Tol(MaxAbs(m.pts), 46)
TPOK(o, m, pts) == LET t == TestPoints(o, m) IN IsArr(pts, <<Len(t), 2>>) /\ AllClose(pts, t, TPTol(o, m))
TTestPts == /\ IsOp("geo.testpts") /\ Query
   /\ LET o == objs[E.obj] IN
      Consume(IF ~E.ok THEN C("C05", "test points are available once a mesh exists", FALSE)
              ELSE C("C05", "test points are the grid (internal) or the nodes of the last file (external), in order",
                     TPOK(o, o.mesh, E.pts)))

(*------------------------------- exports ---------------------------------*)
FilesOf(s) == [f \in {s[i].f : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i].f = f].h]
Match == E.cols = Len(E.names)
OthersKept == LET b == FilesOf(E.before) a == FilesOf(E.after) IN
   /\ \A f \in DOMAIN b \ {E.file} : f \in DOMAIN a /\ a[f] = b[f]
   /\ DOMAIN a \subseteq DOMAIN b \cup {E.file}
RefusedLeavesNothing == LET b == FilesOf(E.before) a == FilesOf(E.after) IN a = b
\* equal to the printed precision; what is not a number is printed as such
SameNumber(u, v) == IF IsRat(u) /\ IsRat(v) THEN RClose(u, v, Tol(RAbs(v), 45)) ELSE ~IsRat(u) /\ ~IsRat(v) /\ u = v
FieldsOK == LET f == ExportFields(E.sol, E.names) IN
   /\ Len(E.out.fields) = Len(f)
   /\ \A j \in DOMAIN f : /\ E.out.fields[j].name = f[j].name
                          /\ Len(E.out.fields[j].vals) = E.rows
                          /\ \A i \in 1..E.rows : SameNumber(E.out.fields[j].vals[i], f[j].vals[i])
XNodes(m) == Len(m.pts)
GeometryOK(o, m) == /\ Len(E.mesh.points) > 0
                    /\ E.out.points = E.mesh.points /\ E.out.cells = E.mesh.cells /\ E.out.npd = Len(E.mesh.points)
                    /\ m.kind = "external" => /\ IsArr(E.mesh.points, <<Len(m.pts), 2>>)
                                              /\ AllClose(E.mesh.points, m.pts, Tol(MaxAbs(m.pts), 46))
                                              /\ \A q \in DOMAIN m.quads : [i \in 1..4 |-> m.quads[q][i] - 1] \in Rng(E.mesh.cells)
TVtk == /\ IsOp("geo.vtk")
   /\ IF ~Match
      THEN /\ UNCHANGED gvars
           /\ Consume(C("C06", "a column count that differs from the number of names is refused", ~E.ok)
                      \cup C("C06", "a refused export leaves no file behind", RefusedLeavesNothing))
      ELSE /\ Export(E.obj, E.file, [sol |-> E.sol, names |-> E.names])
           /\ Consume(IF ~E.ok THEN C("C06", "an export with matching names succeeds", FALSE) ELSE
                Then(C("C06", "the file is written at the requested path", E.exists),
                     C("C06", "points and cells are those of the mesh", GeometryOK(objs[E.obj], objs[E.obj].mesh))
                     \cup C("C06", "one scalar field per column, in order, named, equal to the data", FieldsOK)
                     \cup C("C06", "earlier exports and the mesh file stay unchanged", OthersKept)
                     \cup C("C06", "the solution array is not modified", E.same)))

Next == (TBroken /\ UNCHANGED gvars) \/ TStart \/ TNew \/ TInternal \/ TRead \/ TRecheck \/ TTestPts \/ TVtk \/ (Finish /\ UNCHANGED gvars)
Spec == Init /\ [][Next]_vars
=============================================================================
