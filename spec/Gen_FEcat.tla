----------------------------- MODULE Gen_FEcat -----------------------------
(* Catalogues of finite-element spaces and functions shared by the generators. *)
EXTENDS GenMesh
Types == <<"legendre", "jacobi", "legendre_special", "chebyshev_2", "jacobi_plain">>
QTypes == <<"gauss-legendre", "gauss-jacobi">>
(*------------------------------ spaces ------------------------------------*)
\* polynomial coefficients
CoefCat == <<"1", "-1", "2", "-3/2", "1/3", "7/4", "-5", "1/10", "0">>
Poly(a, s, deg) == [kind |-> "poly", c |-> Flat([i \in 1..(deg + 1) |-> [j \in 1..(deg + 2 - i) |-> <<i - 1, j - 1, Cyc(CoefCat, a, s + i * 7 + j)>>]])]
Abc(a, s) == <<Cyc(<<"1", "-2", "3/4", "0">>, a, s), Cyc(<<"1", "-3", "1/2", "5/3">>, a, s + 1), Cyc(<<"1/7", "-1/3", "2/9", "-5/11">>, a, s + 2)>>
Force(a, s) == LET kk == Cyc(<<"poly", "poly", "abs", "rampat", "sin", "step", "bumpat", "poly", "const", "bump", "zero", "ramp", "bumpat">>, a, s) IN
   CASE kk = "poly" -> Poly(a, s + 10, 1 + Rnd(a, s + 1, 3))
     [] kk = "const" -> [kind |-> "poly", c |-> << <<0, 0, Cyc(<<"1", "-7/3", "1000">>, a, s + 2)>> >>]
     [] kk = "zero" -> [kind |-> "poly", c |-> << <<0, 0, "0">> >>]
     \* a kink through the middle of some cell, a strip narrower than a cell
     [] kk \in {"rampat", "bumpat"} -> [kind |-> kk, cell |-> Rnd(a, s + 3, 60), abc |-> <<Cyc(<<"1", "-2", "3/4", "0">>, a, s + 20), Cyc(<<"1", "-3", "1/2", "5/3">>, a, s + 21), Cyc(<<"0", "1/7", "-1/3", "0">>, a, s + 22)>>]
     [] OTHER -> [kind |-> kk, abc |-> Abc(a, s + 20)]
\* a forcing function that can only be called point by point: the largest of three numbers
ScalarForce(a, s) == IF Rnd(a, s + 30, 5) = 0 THEN [kind |-> "top", abc |-> Abc(a, s + 20)] ELSE Force(a, s)
\* cells of a mesh: lattice m x n under an affine map; amp = jitter (0: parallelograms)
CellV(a, s, amp, A, i, j) == Vtx(a, s, amp, A, i, j)
\* orientation of the affine image: listing counter-clockwise or clockwise, from any corner
CellsOf(a, s, dims, amp, A) ==
   [c \in 1..(dims[1] * dims[2]) |-> LET i == (c - 1) \div dims[2] j == (c - 1) % dims[2]
       q == << CellV(a, s, amp, A, i, j), CellV(a, s, amp, A, i + 1, j), CellV(a, s, amp, A, i + 1, j + 1), CellV(a, s, amp, A, i, j + 1) >>
     IN Rot(q, Hash(a, s + 5, c) % 4, Hash(a, s + 6, c) % 2 = 1)]
Reorder(cells, a, s) == [c \in 1..Len(cells) |-> cells[PermG(Len(cells), a, s, c - 1) + 1]]
SpaceDims == << <<1, 1>>, <<2, 1>>, <<1, 3>>, <<2, 2>>, <<3, 2>> >>
FeAffines == << <<0, 10, 0, 0, 0, 10, 100>>, <<-30, 7, 3, 20, -2, 9, 50>>, <<5000, 6, -8, -4000, 8, 6, 100>>, <<1, -9, 2, 2, 1, 11, 30>>,
              <<-100000, 1, 0, 100000, 0, 4, 100>>, <<3, 2, 1, -7, 1, 3, 100000>>, <<0, 30, 0, 0, 0, 1, 10>>, <<12, 0, -10, -7, 10, 0, 70>>,
              <<0, 10, 9, 5, 0, 3, 10>>, <<-7, 3, -8, 11, 9, 2, 4>>,
              <<0, 1, 0, 0, 0, 1, 1>>, <<-31, 3, 1, 12, -1, 2, 1>> >>
FeOrders == <<2, 3, 4, 5, 6, 3, 2, 4, 7, 9>>
QOrders == <<3, 4, 5, 6, 7, 8, 10, 13>>
SpaceOp(o, a, s, dims, vec) ==
   LET trans == Cyc(<<"affine", "bilinear", "bilinear">>, a, s + 1)
       amp == IF trans = "affine" THEN Cyc(<<-1, 0, -2, -1>>, a, s + 2) ELSE Cyc(<<2, 0, -3, 1, 2, -4, -1>>, a, s + 2) IN
   [op |-> "fe.space", obj |-> o, order |-> Cyc(FeOrders, a, s + 3), type |-> Cyc(Types, a, s + 4), qorder |-> Cyc(QOrders, a, s + 5),
    cform |-> Cyc(<<"plain", "int", "fortran", "int", "view">>, a, s + 9), qtype |-> Cyc(QTypes, a, s + 6), trans |-> trans, vector |-> vec,
    cells |-> Reorder(CellsOf(a, s, dims, amp, Cyc(FeAffines, a, s + 7)), a, s + 8),
    f |-> IF vec THEN [m \in 1..(2 + (a % 2)) |-> Force(a, s + 100 * m)] ELSE << ScalarForce(a, s + 100) >>]
\* coefficients that coincide, up to sign
Coincide(p, i) == CASE i = 0 -> [p EXCEPT !.b_y = p.b_x] [] i = 1 -> [p EXCEPT !.b_x = "3/2", !.b_y = "-3/2"] [] i = 2 -> [p EXCEPT !.c = p.eps] [] i = 3 -> [p EXCEPT !.eps = "7/4", !.c = "-7/4"]
   [] i = 4 -> [p EXCEPT !.eps = p.b_x] [] i = 5 -> [p EXCEPT !.eps = p.k] [] i = 6 -> [p EXCEPT !.inv = p.eps] [] i = 7 -> [p EXCEPT !.b_x = "-2", !.b_y = "2", !.c = "2"] [] i = 8 -> [p EXCEPT !.c = p.b_y, !.inv = p.c] [] i = 9 -> [p EXCEPT !.b_x = "1", !.b_y = "1", !.eps = "1", !.c = "1", !.k = "1"]
   [] i = 10 -> [p EXCEPT !.b_x = "0", !.b_y = "0"] [] OTHER -> p
=============================================================================
