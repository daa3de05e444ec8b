---------------------------- MODULE MC_Geometry ----------------------------
(* Exhaustive exploration of the geometry state machine for small constants, *)
(* with the listed properties as invariants of the design.                   *)
EXTENDS Geometry
CONSTANTS Objs, NMax, Paths, PlanMax, Lattice
Rects == {<<0, 1, 0, 1>>, <<-2, 1, 3, 4>>, <<-1, 7, -3, -2>>}
MkInternal(r, nx, ny, nb) == [kind |-> "internal", x |-> <<RI(r[1]), RI(r[2])>>, y |-> <<RI(r[3]), RI(r[4])>>, nx |-> nx, ny |-> ny, nb |-> nb]
\* a small external mesh: one lattice quadrilateral, listed in any rotation and orientation
LPts == {<<RI(a), RI(b)>> : a \in 0..Lattice, b \in 0..Lattice}
ConvexQuads == {q \in LPts \X LPts \X LPts \X LPts : StrictlyConvexCCW(q) /\ RLt(R0, Area2(q))
                   /\ X(q[1]) = RMinSeq([i \in 1..4 |-> X(q[i])])}
Listing(q, s, rev) == [i \in 1..4 |-> q[IF rev THEN ((s - i + 8) % 4) + 1 ELSE ((s + i) % 4) + 1]]
MkExternal(q, s, rev, r) == [kind |-> "external", pts |-> Listing(q, s, rev), quads |-> <<<<1, 2, 3, 4>>>>,
   edges |-> <<<<1, 2, 5>>, <<2, 3, 5>>, <<4, 3, 9>>, <<4, 1, 2>>>>, r |-> r, method |-> "uniform"]
Init == GInit
VARIABLE steps
vars == <<objs, files, steps>>
MCInit == Init /\ steps = 0
ANew == \E o \in Objs, k \in {"internal", "external"}, t \in 1..3 :
          o \notin DOMAIN objs /\ New(o, [kind |-> k, ntx |-> t, nty |-> 2, folder |-> o, mesh |-> NoMesh])
AInternal == \E o \in DOMAIN objs, r \in Rects, nx \in 1..NMax, ny \in 1..NMax, nb \in {4, 7} :
          objs[o].kind = "internal" /\ SetMesh(o, MkInternal(r, nx, ny, nb))
ARead == \E o \in DOMAIN objs, q \in ConvexQuads, s \in 0..3, rev \in BOOLEAN, r \in 0..1 :
          objs[o].kind = "external" /\ SetMesh(o, MkExternal(q, s, rev, r))
AExport == \E o \in DOMAIN objs, p \in Paths : Export(o, p, [obj |-> o, n |-> Len(TestPoints(objs[o], objs[o].mesh))])
AQuery == Query
MCNext == steps < PlanMax /\ steps' = steps + 1 /\ (ANew \/ AInternal \/ ARead \/ AExport)
Spec == MCInit /\ [][MCNext]_vars

Internal == {o \in DOMAIN objs : objs[o].mesh.kind = "internal"}
External == {o \in DOMAIN objs : objs[o].mesh.kind = "external"}
\* C01
Tiles == \A o \in Internal : LET m == objs[o].mesh cs == GridCells(m) IN
   /\ Len(cs) = m.nx * m.ny
   /\ \A c \in 1..Len(cs) : StrictlyConvexCCW(cs[c]) /\ SortByAngle(cs[c]) = cs[c]
   /\ RSum([c \in 1..Len(cs) |-> Area2(cs[c])]) = RMul(RI(2), RMul(RSub(m.x[2], m.x[1]), RSub(m.y[2], m.y[1])))
   /\ \A c, d \in 1..Len(cs) : c # d => \/ RLeq(X(cs[c][2]), X(cs[d][1])) \/ RLeq(X(cs[d][2]), X(cs[c][1]))
                                        \/ RLeq(Y(cs[c][3]), Y(cs[d][1])) \/ RLeq(Y(cs[d][3]), Y(cs[c][1]))
\* C02 : sides are disjoint up to corners and cover the boundary; midpoints of pieces are a valid sample
Sides == \A o \in Internal : LET m == objs[o].mesh n == PerSide(m) IN
   \A t \in Rng(Tags) : LET s == Side(m, t) mid == [i \in 1..n |-> RQ(2 * i - 1, 2 * n)] IN
      /\ Stratified(mid, n, R0) /\ (n > 1 => ~Stratified([i \in 1..n |-> RQ(1, 2 * n)], n, R0))
      /\ OnSegment(s[1], s[1], s[2], R0) /\ OnSegment(s[2], s[1], s[2], R0)
      /\ \A u \in Rng(Tags) \ {t} : ~OnSegment(PScale(RQ(1, 2), PAdd(s[1], s[2])), Side(m, u)[1], Side(m, u)[2], R0)
\* C03 : the angular sort orders every convex quadrilateral counter-clockwise, whatever the listing
SortCCW == \A o \in External : LET m == objs[o].mesh q == FileCell(m, 1) s == SortByAngle(q) IN
   StrictlyConvexCCW(s) /\ SameCorners(q, s, R0) /\ Rng(q) = Rng(s)
\* C04 : uniform sampling, shared end points counted once, only points of the tag's own edges
Uniform == \A o \in External : LET m == objs[o].mesh IN \A t \in EdgeTags(m) :
   LET K == UniformKeys(m, t) IN
      /\ Cardinality({UniformPoint(m, k) : k \in K}) = Cardinality(K)
      /\ Cardinality(K) = (IF t = 5 THEN 2 * Pow2(m.r) + 1 ELSE Pow2(m.r) + 1)
      /\ \A k \in K : \E e \in EdgesOf(m, t) : OnSegment(UniformPoint(m, k), m.pts[m.edges[e][1]], m.pts[m.edges[e][2]], R0)
\* C05
Grid == \A o \in Internal : LET m == objs[o].mesh t == TestPoints(objs[o], m) IN
   /\ Len(t) = objs[o].ntx * objs[o].nty
   /\ \A k \in 1..Len(t) : RLeq(m.x[1], X(t[k])) /\ RLeq(X(t[k]), m.x[2]) /\ RLeq(m.y[1], Y(t[k])) /\ RLeq(Y(t[k]), m.y[2])
   /\ Cardinality(Rng(t)) = Len(t)
   /\ t[1] = <<m.x[1], m.y[1]>> /\ (objs[o].ntx > 1 /\ objs[o].nty > 1 => t[Len(t)] = <<m.x[2], m.y[2]>>)
\* C06
FilesStay == [][\A p \in DOMAIN files : p \in DOMAIN files']_vars
OneWriterPerStep == [][Cardinality({p \in DOMAIN files' : p \notin DOMAIN files \/ files'[p] # files[p]}) <= 1]_vars
=============================================================================
