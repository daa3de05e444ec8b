------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Specification of the geometry layer of fastvpinns: what a mesh is, what  *)
(* its cells, boundary points and test points are, and what an export      *)
(* contains.  The state machine at the end has one action per public call; *)
(* the model (MC_Geometry) explores it exhaustively for small constants,   *)
(* the trace specification (Tr_Geometry) binds the actions to recorded     *)
(* calls of the real code.                                                 *)
(***************************************************************************)
EXTENDS Rat

X(p) == p[1]
Y(p) == p[2]
PSub(p, q) == <<RSub(p[1], q[1]), RSub(p[2], q[2])>>
PAdd(p, q) == <<RAdd(p[1], q[1]), RAdd(p[2], q[2])>>
PScale(k, p) == <<RMul(k, p[1]), RMul(k, p[2])>>
Cross(p, q) == RSub(RMul(p[1], q[2]), RMul(p[2], q[1]))
Dot2(p, q) == RAdd(RMul(p[1], q[1]), RMul(p[2], q[2]))
Rng(s) == {s[i] : i \in DOMAIN s}

(*------------------------------ rectangles -------------------------------*)
\* i-th of n+1 equally spaced values from a to b, i = 0..n
Lin(a, b, n, i) == IF n = 0 THEN a ELSE RAdd(a, RMul(RSub(b, a), RQ(i, n)))
GridX(m, i) == Lin(m.x[1], m.x[2], m.nx, i)
GridY(m, j) == Lin(m.y[1], m.y[2], m.ny, j)
NCells(m) == m.nx * m.ny
\* corners of cell c = 1..nx*ny : column by column, counter-clockwise from the lower-left corner
GridCell(m, c) == LET i == (c - 1) \div m.ny   j == (c - 1) % m.ny IN
   << <<GridX(m, i), GridY(m, j)>>, <<GridX(m, i + 1), GridY(m, j)>>,
      <<GridX(m, i + 1), GridY(m, j + 1)>>, <<GridX(m, i), GridY(m, j + 1)>> >>
GridCells(m) == [c \in 1..NCells(m) |-> GridCell(m, c)]

(*------------------------------ polygons ---------------------------------*)
Area2(q) == RSum([i \in 1..Len(q) |-> Cross(q[i], q[(i % Len(q)) + 1])])     \* twice the signed area
TurnAt(q, i) == LET n == Len(q) a == q[i] b == q[(i % n) + 1] c == q[((i + 1) % n) + 1]
                IN Cross(PSub(b, a), PSub(c, b))
StrictlyConvexCCW(q) == \A i \in 1..Len(q) : RSgn(TurnAt(q, i)) > 0
\* the same four corners (as a multiset), whatever the order
SameCorners(q, r, tol) == \E p \in Permutations(1..Len(q)) : \A i \in 1..Len(q) : AllClose(q[i], r[p[i]], tol)

(*----------------- the sorting algorithm the code uses -------------------*)
\* "sort by angle around the centroid", angles in (-pi, pi]: lower half plane first
Centroid(q) == PScale(RQ(1, Len(q)), <<RSum([i \in 1..Len(q) |-> X(q[i])]), RSum([i \in 1..Len(q) |-> Y(q[i])])>>)
Half(v) == IF RSgn(Y(v)) < 0 THEN 0 ELSE IF RSgn(Y(v)) = 0 /\ RSgn(X(v)) > 0 THEN 1
           ELSE IF RSgn(Y(v)) > 0 THEN 2 ELSE 3
AngleLess(u, v) == Half(u) < Half(v) \/ (Half(u) = Half(v) /\ RSgn(Cross(u, v)) > 0)
SortByAngle(q) == LET c == Centroid(q) IN
   SortSeq(q, LAMBDA a, b : AngleLess(PSub(a, c), PSub(b, c)))

(*--------------------------- boundary of meshes --------------------------*)
Tags == <<1000, 1001, 1002, 1003>>        \* bottom, right, top, left
\* end points of the side with this tag
Side(m, tag) == CASE tag = 1000 -> << <<m.x[1], m.y[1]>>, <<m.x[2], m.y[1]>> >>
                  [] tag = 1001 -> << <<m.x[2], m.y[1]>>, <<m.x[2], m.y[2]>> >>
                  [] tag = 1002 -> << <<m.x[1], m.y[2]>>, <<m.x[2], m.y[2]>> >>
                  [] tag = 1003 -> << <<m.x[1], m.y[1]>>, <<m.x[1], m.y[2]>> >>
PerSide(m) == m.nb \div 4
\* parameter of the projection of p on the segment a-b, and distance test
SegParam(p, a, b) == RDiv(Dot2(PSub(p, a), PSub(b, a)), Dot2(PSub(b, a), PSub(b, a)))
OnSegment(p, a, b, tol) == LET t == SegParam(p, a, b) IN
   AllClose(p, PAdd(a, PScale(t, PSub(b, a))), tol)
   /\ RLeq(RNeg(tol), RMul(t, MaxAbs(PSub(b, a)))) /\ RLeq(RMul(RSub(t, R1), MaxAbs(PSub(b, a))), tol)
\* parameters ts (in any order) form a Latin-hypercube sample: one in each of n equal pieces
Stratified(ts, n, tol) == LET s == SortSeq(ts, RLt) IN
   Len(ts) = n /\ \A i \in 1..n : /\ RLeq(RSub(RQ(i - 1, n), tol), s[i]) /\ RLeq(s[i], RAdd(RQ(i, n), tol))

(*--------------------------- external meshes -----------------------------*)
\* m.pts, m.quads (point numbers from 1), m.edges (<<from, to, tag>>), m.r, m.method
FileCell(m, c) == [i \in 1..4 |-> m.pts[m.quads[c][i]]]
EdgeTags(m) == {m.edges[k][3] : k \in DOMAIN m.edges}
EdgesOf(m, tag) == {k \in DOMAIN m.edges : m.edges[k][3] = tag}
Pow2(n) == 2^n
EdgePt(m, k, i) == Lin(m.pts[m.edges[k][1]][1], m.pts[m.edges[k][2]][1], Pow2(m.r), i)
EdgePoint(m, k, i) == <<EdgePt(m, k, i), Lin(m.pts[m.edges[k][1]][2], m.pts[m.edges[k][2]][2], Pow2(m.r), i)>>
\* the distinct points of uniform sampling at level r: end points are identified by their number
UniformKeys(m, tag) == {<<"v", m.edges[k][j], 0>> : k \in EdgesOf(m, tag), j \in 1..2}
                       \cup {<<"e", k, i>> : k \in EdgesOf(m, tag), i \in 1..(Pow2(m.r) - 1)}
UniformPoint(m, key) == IF key[1] = "v" THEN m.pts[key[2]] ELSE EdgePoint(m, key[2], key[3])

(*--------------------------- test points ---------------------------------*)
\* number k of ntx*nty grid points, x fastest
GridPoint(o, m, k) == LET i == (k - 1) % o.ntx  j == (k - 1) \div o.ntx IN
   <<Lin(m.x[1], m.x[2], o.ntx - 1, i), Lin(m.y[1], m.y[2], o.nty - 1, j)>>
TestPoints(o, m) == IF m.kind = "internal" THEN [k \in 1..(o.ntx * o.nty) |-> GridPoint(o, m, k)] ELSE m.pts

(*--------------------------- exports -------------------------------------*)
ExportFields(sol, names) == [j \in 1..Len(names) |-> [name |-> names[j], vals |-> [i \in 1..Len(sol) |-> sol[i][j]]]]

(***************************************************************************)
(* State machine: geometry objects and the files they write.               *)
(***************************************************************************)
VARIABLES objs,    \* object name -> [kind, ntx, nty, folder, mesh, hist]; mesh = [kind |-> "none"] before the first mesh,
                   \* hist = all meshes this object has handed out, in order
          files    \* path of an export -> what it must contain
gvars == <<objs, files>>
NoMesh == [kind |-> "none"]
GInit == objs = <<>> /\ files = <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
New(o, rec) == objs' = Put(objs, o, rec) /\ UNCHANGED files
\* a mesh replaces the previous one completely
\* what it handed out before stays what it was
SetMesh(o, m) == o \in DOMAIN objs /\ objs' = [objs EXCEPT ![o].mesh = m, ![o].hist = Append(@, m)] /\ UNCHANGED files
Export(o, path, c) == /\ o \in DOMAIN objs /\ objs[o].mesh.kind # "none"
                      /\ files' = Put(files, path, c) /\ UNCHANGED objs
Query == UNCHANGED gvars
=============================================================================
