-------------------------------- MODULE MC_FE --------------------------------
(* Exhaustive checks of the finite-element design: one state per case.        *)
EXTENDS FE
CONSTANTS Lattice, NMax
VARIABLE case
vars == <<case, spaces, tables>>
LPts == {<<RI(a), RI(b)>> : a \in 0..Lattice, b \in 0..Lattice}
PSubV(p, q) == <<RSub(p[1], q[1]), RSub(p[2], q[2])>>
CrossV(p, q) == RSub(RMul(p[1], q[2]), RMul(p[2], q[1]))
Turn(q, i) == LET b == q[(i % 4) + 1] c == q[((i + 1) % 4) + 1] IN CrossV(PSubV(b, q[i]), PSubV(c, b))
Convex(q) == (\A i \in 1..4 : RSgn(Turn(q, i)) > 0) \/ (\A i \in 1..4 : RSgn(Turn(q, i)) < 0)
\* every convex lattice quadrilateral, from every first corner, in both orientations
Quads == {q \in LPts \X LPts \X LPts \X LPts : Convex(q)}
Cases == {[k |-> "quad", q |-> q] : q \in Quads}
         \cup {[k |-> "tf", type |-> t, n |-> n] : t \in BasisTypes, n \in 0..NMax}
         \cup {[k |-> "rule", n |-> n] : n \in {3}}
Init == case \in Cases /\ FInit
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
IsQ == case.k = "quad"
\* Gauss-Lobatto rule with 3 points: rational, exact up to degree 3
LX == <<RI(-1), R0, R1>>
LW == <<RQ(1, 3), RQ(4, 3), RQ(1, 3)>>
Nodes == [q \in 1..9 |-> <<LX[((q - 1) % 3) + 1], LX[((q - 1) \div 3) + 1]>>]
Weights == [q \in 1..9 |-> RMul(LW[((q - 1) % 3) + 1], LW[((q - 1) \div 3) + 1])]
Fq == CellMap(case.q)
JAt(q) == Jac(Fq, Nodes[q][1], Nodes[q][2])
\* C10
CornersMap == IsQ => \A i \in 1..4 : MapPt(Fq, RefCorner[i][1], RefCorner[i][2]) = case.q[i]
AreaIdentity == IsQ => /\ \A q \in 1..9 : RSgn(Det(JAt(q))) = RSgn(CellArea2(case.q))
                       /\ RMul(RI(2), RSum([q \in 1..9 |-> RMul(Weights[q], RAbs(Det(JAt(q))))])) = RAbs(CellArea2(case.q))
OrientationFree == IsQ => LET r == <<case.q[1], case.q[4], case.q[3], case.q[2]>> s == <<case.q[2], case.q[3], case.q[4], case.q[1]>> IN
   RAbs(CellArea2(r)) = RAbs(CellArea2(case.q)) /\ CellArea2(s) = CellArea2(case.q)
\* on a parallelogram the affine map through corners 1, 2 and 4 is the bilinear map
AffineIsBilinear == (IsQ /\ IsParallelogram(case.q)) => \A m \in 1..2 : LET A == Coefs(case.q, m) IN
   /\ A[1] = RMul(RQ(1, 2), RAdd(case.q[2][m], case.q[4][m]))
   /\ A[2] = RMul(RQ(1, 2), RSub(case.q[2][m], case.q[1][m])) /\ A[3] = RMul(RQ(1, 2), RSub(case.q[4][m], case.q[1][m]))
\* C11 : pull a polynomial u back to the reference square, differentiate there, push forward
U == << [i |-> 2, j |-> 0, v |-> RI(1)], [i |-> 1, j |-> 1, v |-> RI(3)], [i |-> 0, j |-> 2, v |-> RI(-2)], [i |-> 1, j |-> 0, v |-> RI(-1)], [i |-> 0, j |-> 1, v |-> RI(5)] >>
ChainRule == IsQ => \A q \in 1..9 : LET j == JAt(q) p == MapPt(Fq, Nodes[q][1], Nodes[q][2])
       ux == PolyEval(PolyDx(U), p) uy == PolyEval(PolyDy(U), p)
       bx == RAdd(RMul(ux, j[1][1]), RMul(uy, j[2][1])) by == RAdd(RMul(ux, j[1][2]), RMul(uy, j[2][2]))
   IN PhysGrad(j, bx, by) = <<ux, uy>>
HessRule == (IsQ /\ IsParallelogram(case.q)) => LET j == JAt(5)
       xx == RI(2) xy == RI(3) yy == RI(-4)          \* Hessian of U
       h(a, b) == RSum(<<RMul(xx, RMul(j[1][a], j[1][b])), RMul(xy, RAdd(RMul(j[1][a], j[2][b]), RMul(j[2][a], j[1][b]))), RMul(yy, RMul(j[2][a], j[2][b]))>>)
   IN PhysHess(j, h(1, 1), h(1, 2), h(2, 2)) = <<xx, xy, yy>>
\* C08, C09
IsT == case.k = "tf"
TFp == TF1(case.type, case.n)
Vanish == (IsT /\ case.type # "jacobi_plain") => PEval(TFp, R1) = R0 /\ PEval(TFp, RI(-1)) = R0
PEq(p, q) == \A i \in 1..PMaxLen(p, q) : PCoef(p, i) = PCoef(q, i)
\* P'[n+2] - P'[n] = (2n+3) P[n+1];   T: (T[n+2] - T[n])' via (1-x^2) T'' - x T' + k^2 T = 0
DerivIdentity == IsT => /\ (case.type \in LegendreTypes => PEq(PDer(TFp), [i \in 1..(case.n + 2) |-> RMul(RI(2 * case.n + 3), PCoef(Legendre(case.n + 1), i))]))
                        /\ Len(PDerK(TFp, 2)) <= Len(TFp)
ChebODE == IsT => LET T == Chebyshev(case.n) d1 == PDer(T) d2 == PDer(d1) IN
   PEq(PLin(R1, PLin(R1, d2, RI(-1), PShift(PShift(d2))), R1, PLin(RI(-1), PShift(d1), RI(case.n * case.n), T)), <<R0>>)
Normal == IsT => /\ PEval(Legendre(case.n), R1) = R1 /\ PEval(Chebyshev(case.n), R1) = R1
                 /\ \A m \in 0..NMax : PInt(PMulP(Legendre(case.n), Legendre(m))) = IF m = case.n THEN RQ(2, 2 * m + 1) ELSE R0
\* the derivative of the tensor product in each argument
Tensor == IsT => LET N == 3 xi == <<RQ(1, 2), RI(-1)>> eta == <<RQ(-1, 3), R1>> T == BasisTable(case.type, N, "gradxy", xi, eta) IN
   \A k \in 1..9 : T[k][1] = RMul(PEval(PDer(TF1(case.type, RowI(N, k) - 1)), xi[1]), PEval(PDer(TF1(case.type, RowJ(N, k) - 1)), eta[1]))
\* C07
RuleOK == case.k = "rule" => /\ Exact1D(LX, LW, 3, R0) /\ ~Exact1D(LX, LW, 4, RPow2(-20))
                             /\ ~Exact1D(LX, <<LW[1], LW[1], LW[2]>>, 3, RPow2(-20))
                             /\ IsTensor(Weights, [q \in 1..9 |-> Nodes[q][1]], [q \in 1..9 |-> Nodes[q][2]], 3, RPow2(-40))
                             /\ ~IsTensor(Weights, [q \in 1..9 |-> Nodes[q][2]], [q \in 1..9 |-> Nodes[q][1]], 3, RPow2(-40))
                             /\ \A i \in 1..3 : ColWeight(Weights, 3, i) = LW[i]
=============================================================================
