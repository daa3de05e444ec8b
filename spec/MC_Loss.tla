------------------------------ MODULE MC_Loss ------------------------------
(* The vectorised computation of the loss (batched matrix-vector products,     *)
(* transposition, mean over the first axis) against the definition, for every  *)
(* assignment of small integers to the tensors of two cells, two test          *)
(* functions and one point: equal extents, where a missing transposition or a  *)
(* mean over the wrong axis still type-checks (variants "notrans", "axis").    *)
EXTENDS Physics
CONSTANTS Vals, Variant
VARIABLES g, v, u, f, eq
lvars == <<spaces, tables, g, v, u, f, eq>>
I2 == 1..2
Init == /\ FInit /\ eq \in {"poisson", "cd2d", "helmholtz"}
        /\ g \in [I2 -> [I2 -> Vals]] /\ v \in [I2 -> {<<1, 2>>, <<0, -1>>}] /\ u \in [I2 -> Vals] /\ f \in [I2 -> [I2 -> Vals]]
Spec == Init /\ [][UNCHANGED lvars]_lvars
P == [eps |-> RI(2), b_x |-> RI(3), b_y |-> RI(0), c |-> RI(-1), k |-> RI(2), inv |-> R1]
\* data of cell c for the definition (one point; ux = u + 1, uy = 0)
Data(c) == [v |-> [m \in I2 |-> <<RI(v[c][m])>>], gx |-> [m \in I2 |-> <<RI(g[c][m])>>], gy |-> [m \in I2 |-> <<R1>>],
            u |-> <<RI(u[c])>>, ux |-> <<RI(u[c] + 1)>>, uy |-> <<R0>>, coef |-> <<R1>>, f |-> [m \in I2 |-> RI(f[m][c])]]
\* the algorithm: MV[c][m] batched products, transposed to [m][c]
MV(t, w) == [c \in I2 |-> [m \in I2 |-> t[c][m] * w[c]]]
Tr(x) == IF Variant = "notrans" THEN x ELSE [m \in I2 |-> [c \in I2 |-> x[c][m]]]
Ux == [c \in I2 |-> u[c] + 1]
D == Tr(MV(g, Ux))
V(w) == Tr(MV(v, w))
R(a, b) == LET d == 2 * D[a][b] IN
   (CASE eq = "poisson" -> d [] eq = "cd2d" -> d + 3 * V(Ux)[a][b] - V(u)[a][b] [] eq = "helmholtz" -> 4 * V(u)[a][b] - d) - f[a][b]
Alg(c) == IF Variant = "axis" THEN RQ(R(c, 1) * R(c, 1) + R(c, 2) * R(c, 2), 2) ELSE RQ(R(1, c) * R(1, c) + R(2, c) * R(2, c), 2)
Agree == \A c \in I2 : Alg(c) = CellLoss(eq, Data(c), P)
=============================================================================
