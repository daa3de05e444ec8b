--------------------------------- MODULE FE ---------------------------------
(***************************************************************************)
(* Specification of the finite-element layer: quadrature rules, test       *)
(* functions and their derivatives, cell maps, physical tables, forcing    *)
(* integrals, and finite-element spaces as objects that hand out private    *)
(* copies of their tables.                                                 *)
(***************************************************************************)
EXTENDS Fn

(*------------------ one-dimensional polynomials (coefficients upwards) ----*)
PCoef(p, i) == IF i <= Len(p) THEN p[i] ELSE R0
PMaxLen(p, q) == IF Len(p) >= Len(q) THEN Len(p) ELSE Len(q)
PSubP(p, q) == [i \in 1..PMaxLen(p, q) |-> RSub(PCoef(p, i), PCoef(q, i))]
PLin(a, p, b, q) == [i \in 1..PMaxLen(p, q) |-> RAdd(RMul(a, PCoef(p, i)), RMul(b, PCoef(q, i)))]
PShift(p) == <<R0>> \o p
PDer(p) == IF Len(p) <= 1 THEN <<R0>> ELSE [i \in 1..(Len(p) - 1) |-> RMul(RI(i), p[i + 1])]
RECURSIVE PDerK(_, _)
PDerK(p, d) == IF d = 0 THEN p ELSE PDerK(PDer(p), d - 1)
PMulP(p, q) == [k \in 1..(Len(p) + Len(q) - 1) |->
    RSum([i \in 1..k |-> IF i <= Len(p) /\ k + 1 - i <= Len(q) THEN RMul(p[i], q[k + 1 - i]) ELSE R0])]
\* integral over [-1, 1]
PInt(p) == RSum([i \in 1..Len(p) |-> IF i % 2 = 1 THEN RMul(p[i], RQ(2, i)) ELSE R0])
MaxOrder == 20
RECURSIVE LegBuild(_)
LegBuild(s) == LET n == Len(s) IN IF n > MaxOrder + 2 THEN s ELSE
    \* n P[n] = (2n-1) x P[n-1] - (n-1) P[n-2]
    LegBuild(Append(s, TLCEval(PLin(RQ(2 * n - 1, n), PShift(s[n]), RQ(1 - n, n), s[n - 1]))))
LegSeq == LegBuild(<< <<R1>>, <<R0, R1>> >>)
Legendre(n) == LegSeq[n + 1]
RECURSIVE ChebBuild(_)
ChebBuild(s) == LET n == Len(s) IN IF n > MaxOrder + 2 THEN s ELSE
    ChebBuild(Append(s, TLCEval(PLin(RI(2), PShift(s[n]), RI(-1), s[n - 1]))))
ChebSeq == ChebBuild(<< <<R1>>, <<R0, R1>> >>)
Chebyshev(n) == ChebSeq[n + 1]

(*------------------------- test functions --------------------------------*)
LegendreTypes == {"legendre", "jacobi", "legendre_special"}
BasisTypes == LegendreTypes \cup {"chebyshev_2", "jacobi_plain"}
\* n-th one-dimensional test function, n = 0, 1, ...
TF1(type, n) == CASE type \in LegendreTypes -> PSubP(Legendre(n + 2), Legendre(n))
                  [] type = "chebyshev_2"  -> PSubP(Chebyshev(n + 2), Chebyshev(n))
                  [] type = "jacobi_plain" -> Legendre(n)
\* largest degree involved: bounds the rounding of an evaluation of a derivative
TF1Scale(type, n, d) == LET p == CASE type \in LegendreTypes -> Legendre(n + 2)
                                   [] type = "chebyshev_2" -> Chebyshev(n + 2) [] OTHER -> Legendre(n)
                        IN RAdd(R1, RAbs(PEval(PDerK(p, d), R1)))
\* orders of derivative in the two reference coordinates
DX(what) == CASE what \in {"value", "grady", "gradyy"} -> 0 [] what \in {"gradx", "gradxy"} -> 1 [] what = "gradxx" -> 2
DY(what) == CASE what \in {"value", "gradx", "gradxx"} -> 0 [] what \in {"grady", "gradxy"} -> 1 [] what = "gradyy" -> 2
\* row n+1 = n-th function's d-th derivative at the points xs
Tab1(type, N, d, xs) == [n \in 1..N |-> LET p == TLCEval(PDerK(TF1(type, n - 1), d)) IN [q \in 1..Len(xs) |-> PEval(p, xs[q])]]
\* test function number i*N+j, i and j counted from 0
RowI(N, k) == ((k - 1) \div N) + 1
RowJ(N, k) == ((k - 1) % N) + 1
BasisTable(type, N, what, xi, eta) ==
    LET tx == TLCEval(Tab1(type, N, DX(what), xi)) ty == TLCEval(Tab1(type, N, DY(what), eta))
    IN [k \in 1..(N * N) |-> VMul(tx[RowI(N, k)], ty[RowJ(N, k)])]
BasisScale(type, N, what, k) == RMul(TF1Scale(type, RowI(N, k) - 1, DX(what)), TF1Scale(type, RowJ(N, k) - 1, DY(what)))

(*--------------------------- quadrature ----------------------------------*)
\* values P[0..D](x) by the recurrence, rounded to 160 bits
RECURSIVE LegVals(_, _, _)
LegVals(s, D, x) == LET n == Len(s) IN IF n > D THEN s ELSE
    LegVals(Append(s, RRound(RAdd(RMul(RMul(RQ(2 * n - 1, n), x), s[n]), RMul(RQ(1 - n, n), s[n - 1])), 160)), D, x)
LegAt(D, x) == LegVals(<<R1, x>>, D, x)
Exactness(qtype, n) == IF qtype = "gauss-legendre" THEN 2 * n - 1 ELSE 2 * n - 3
\* a one-dimensional rule with nodes x and weights w is exact up to degree D
Exact1D(x, w, D, tol) == LET V == TLCEval([i \in 1..Len(x) |-> LegAt(D, x[i])]) IN
    \A a \in 0..D : RClose(RSum([i \in 1..Len(x) |-> RMul(w[i], V[i][a + 1])]), IF a = 0 THEN RI(2) ELSE R0, tol)
\* a two-dimensional rule listed with the first coordinate fastest
Node(xi, n, i) == xi[i]
ColWeight(w, n, i) == RMul(RQ(1, 2), RSum([j \in 1..n |-> w[(j - 1) * n + i]]))
IsTensor(w, xi, eta, n, tol) ==
   /\ \A i, j \in 1..n : LET q == (j - 1) * n + i IN
        /\ RClose(xi[q], xi[i], tol) /\ RClose(eta[q], xi[j], tol)
   /\ \A i, j \in 1..n : i # j => RLt(tol, RAbs(RSub(xi[i], xi[j])))

(*--------------------------- cell maps -----------------------------------*)
\* corners of the reference square, in the order of the cell's corners
RefCorner == << <<RI(-1), RI(-1)>>, <<R1, RI(-1)>>, <<R1, R1>>, <<RI(-1), R1>> >>
Quarter == RQ(1, 4)
\* coefficients of x = a0 + a1 xi + a2 eta + a3 xi eta, for coordinate m of the corners
Coefs(cell, m) == LET c(i) == cell[i][m] IN
   << RMul(Quarter, RSum(<<c(1), c(2), c(3), c(4)>>)),
      RMul(Quarter, RSum(<<RNeg(c(1)), c(2), c(3), RNeg(c(4))>>)),
      RMul(Quarter, RSum(<<RNeg(c(1)), RNeg(c(2)), c(3), c(4)>>)),
      RMul(Quarter, RSum(<<c(1), RNeg(c(2)), c(3), RNeg(c(4))>>)) >>
MapAt(A, xi, eta) == RSum(<<A[1], RMul(A[2], xi), RMul(A[3], eta), RMul(A[4], RMul(xi, eta))>>)
\* the map of a cell: coefficients for both coordinates
CellMap(cell) == << Coefs(cell, 1), Coefs(cell, 2) >>
MapPt(F, xi, eta) == << MapAt(F[1], xi, eta), MapAt(F[2], xi, eta) >>
\* Jacobian matrix entries: d/dxi and d/deta
DXi(A, xi, eta) == RAdd(A[2], RMul(A[4], eta))
DEta(A, xi, eta) == RAdd(A[3], RMul(A[4], xi))
Jac(F, xi, eta) == << <<DXi(F[1], xi, eta), DEta(F[1], xi, eta)>>, <<DXi(F[2], xi, eta), DEta(F[2], xi, eta)>> >>
Det(J) == RSub(RMul(J[1][1], J[2][2]), RMul(J[1][2], J[2][1]))
\* physical gradient (gx, gy) with J^T g = (b_xi, b_eta)
PhysGrad(J, bx, by) == LET d == Det(J) IN
   << RDiv(RSub(RMul(J[2][2], bx), RMul(J[2][1], by)), d), RDiv(RSub(RMul(J[1][1], by), RMul(J[1][2], bx)), d) >>
\* physical second derivatives (xx, xy, yy) on an affine cell: H = J^-T Href J^-1
PhysHess(J, hxx, hxy, hyy) == LET d == Det(J)
      a == RDiv(J[2][2], d) b == RDiv(RNeg(J[2][1]), d)      \* d xi/dx, d eta/dx
      e == RDiv(RNeg(J[1][2]), d) f == RDiv(J[1][1], d)      \* d xi/dy, d eta/dy
   IN << RSum(<<RMul(RSq(a), hxx), RMul(RMul(RI(2), RMul(a, b)), hxy), RMul(RSq(b), hyy)>>),
         RSum(<<RMul(RMul(a, e), hxx), RMul(RAdd(RMul(a, f), RMul(b, e)), hxy), RMul(RMul(b, f), hyy)>>),
         RSum(<<RMul(RSq(e), hxx), RMul(RMul(RI(2), RMul(e, f)), hxy), RMul(RSq(f), hyy)>>) >>
CellArea2(cell) == LET c(i) == cell[i] IN       \* twice the signed area (shoelace)
   RSum([i \in 1..4 |-> LET j == (i % 4) + 1 IN RSub(RMul(cell[i][1], cell[j][2]), RMul(cell[j][1], cell[i][2]))])
IsParallelogram(cell) == LET A == CellMap(cell) IN RSgn(A[1][4]) = 0 /\ RSgn(A[2][4]) = 0

(***************************************************************************)
(* Spaces as objects.  tables[<<o, acc, cell, comp>>] is what the space has *)
(* shown for that query; copies handed out belong to the caller, who may    *)
(* write into them.                                                        *)
(***************************************************************************)
VARIABLES spaces,   \* name -> configuration
          tables    \* query -> value
fvars == <<spaces, tables>>
FInit == spaces = <<>> /\ tables = <<>>
FPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NewSpace(o, rec) == spaces' = FPut(spaces, o, rec)
                    /\ tables' = [k \in {q \in DOMAIN tables : q[1] # o} |-> tables[k]]
InRange(o, cell) == cell >= 0 /\ cell < Len(spaces[o].cells)
\* a query with a valid index: shows the same value as before
GetOK(key, v) == key \in DOMAIN tables => tables[key] = v
Get(key, v) == /\ tables' = IF key \in DOMAIN tables THEN tables ELSE FPut(tables, key, v)
               /\ UNCHANGED spaces
Refuse == UNCHANGED fvars
=============================================================================
