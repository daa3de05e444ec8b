------------------------------ MODULE MC_Patch ------------------------------
(* The theorem behind C19, checked exactly: on every cell of the catalogue     *)
(* (parallelograms and general convex quadrilaterals, both orientations), for  *)
(* every equation, every boundary-vanishing family and every polynomial of the *)
(* catalogue with its matching forcing, all weak residuals are exactly zero;   *)
(* with the wrong sign of the forcing (Wrong), or functions that do not vanish *)
(* on the boundary, they are not.                                              *)
EXTENDS Physics
CONSTANTS MaxN, Wrong
VARIABLES cell, eq, type, N, u, res, area
pvars == <<spaces, tables, cell, eq, type, N, u>>
Pt(a, b) == <<RI(a), RI(b)>>
CellCat == { << Pt(0, 0), Pt(1, 0), Pt(1, 1), Pt(0, 1) >>, << Pt(0, 0), Pt(0, 2), Pt(3, 2), Pt(3, 0) >>,
             << Pt(1, 1), Pt(3, 2), Pt(2, 4), Pt(0, 3) >>, << Pt(0, 0), Pt(4, 0), Pt(3, 2), Pt(-1, 3) >>, << Pt(-1, 3), Pt(3, 2), Pt(4, 0), Pt(0, 0) >> }
T(i, j, v) == [i |-> i, j |-> j, v |-> v]
PolyCat == { <<T(0, 0, R1)>>, <<T(1, 0, RI(2)), T(0, 1, RI(-1))>>, <<T(1, 1, R1)>>, <<T(2, 0, R1), T(0, 2, RI(3)), T(1, 0, RQ(1, 2))>>,
             <<T(2, 1, R1), T(0, 3, RI(-2)), T(0, 0, RI(5))>> }
P == [eps |-> RQ(3, 2), b_x |-> RI(-2), b_y |-> RQ(1, 3), c |-> RI(7), k |-> RI(-3), inv |-> R1]
Init == FInit /\ cell \in CellCat /\ eq \in Forward /\ type \in BasisTypes /\ N \in 1..MaxN /\ u \in PolyCat /\ res = <<>> /\ area = R0
Forcing == IF Wrong THEN TScale(RI(-1), Matching(eq, u, P)) ELSE Matching(eq, u, P)
DetPoly(F) == BAdd(BMul(BDXi(F[1]), BDEta(F[2])), BScale(RI(-1), BMul(BDEta(F[1]), BDXi(F[2]))))
\* the residuals are computed in a step (TLC keeps LET values during a step)
Step == /\ res = <<>> /\ UNCHANGED pvars
        /\ res' = WeakResiduals(WeakData(eq, CellMap(cell), Orient(cell), u, Forcing, P), type, N)
        /\ area' = WeakResiduals([v0 |-> BScale(RI(Orient(cell)), DetPoly(CellMap(cell))), vx |-> BConst(R0), ve |-> BConst(R0)], "jacobi_plain", 1)[1]
Spec == Init /\ [][Step]_<<pvars, res, area>>
Patch == (res # <<>> /\ type \in Vanishing) => \A k \in 1..(N * N) : res[k] = R0
\* the boundary condition on the test functions is needed
Needed == (res # <<>> /\ type = "jacobi_plain" /\ N >= 2 /\ eq = "poisson" /\ u = <<T(1, 1, R1)>>) => \E k \in 1..(N * N) : res[k] # R0
\* the integral of 1 over the cell is its area
Area == res # <<>> => RMul(RI(2), area) = RAbs(CellArea2(cell))
=============================================================================
