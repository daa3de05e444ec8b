------------------------------- MODULE Physics -------------------------------
(***************************************************************************)
(* Specification of the weak residuals and PDE losses, and of what they     *)
(* are for polynomial data: exact integrals over the physical cells.       *)
(***************************************************************************)
EXTENDS FE

(*------------------- losses from assembled tensors ------------------------*)
Equations == {"poisson", "poisson_inverse", "cd2d", "cd2d_inverse", "cd2d_inverse_domain", "helmholtz"}
Forward == {"poisson", "cd2d", "helmholtz"}
HasConv(eq) == eq \in {"cd2d", "cd2d_inverse", "cd2d_inverse_domain"}
\* coefficient of the diffusion term
Eps(eq, p) == IF eq \in {"poisson_inverse", "cd2d_inverse"} THEN p.inv ELSE p.eps
\* d: data of one cell [v, gx, gy (function, point), u, ux, uy, coef (point), f (function)]
\* the terms of the residual against test function k
Terms(eq, d, p, k) ==
   LET flux(g, w) == IF eq = "cd2d_inverse_domain" THEN RDot(g, VMul(w, d.coef)) ELSE RMul(Eps(eq, p), RDot(g, w))
       diff == RAdd(flux(d.gx[k], d.ux), flux(d.gy[k], d.uy)) IN
   IF eq = "helmholtz" THEN << RNeg(diff), RMul(RSq(p.k), RDot(d.v[k], d.u)), RNeg(d.f[k]) >>
   ELSE IF HasConv(eq) THEN << diff, RMul(p.b_x, RDot(d.v[k], d.ux)), RMul(p.b_y, RDot(d.v[k], d.uy)), RMul(p.c, RDot(d.v[k], d.u)), RNeg(d.f[k]) >>
   ELSE << diff, RNeg(d.f[k]) >>
Residual(eq, d, p, k) == RSum(Terms(eq, d, p, k))
Mean(s) == RDiv(RSum(s), RI(Len(s)))
CellLoss(eq, d, p) == Mean([k \in 1..Len(d.v) |-> RSq(Residual(eq, d, p, k))])
\* bound of all intermediate values
VAbs(s) == [i \in 1..Len(s) |-> RAbs(s[i])]
AbsDot(a, b) == RDot(VAbs(a), VAbs(b))
TermScale(eq, d, p, k) ==
   LET e(g, w) == IF eq = "cd2d_inverse_domain" THEN AbsDot(g, VMul(w, d.coef)) ELSE RMul(RAbs(Eps(eq, p)), AbsDot(g, w))
       diff == RAdd(e(d.gx[k], d.ux), e(d.gy[k], d.uy)) IN
   IF eq = "helmholtz" THEN RSum(<<diff, RMul(RSq(p.k), AbsDot(d.v[k], d.u)), RAbs(d.f[k])>>)
   ELSE IF HasConv(eq) THEN RSum(<<diff, RMul(RAbs(p.b_x), AbsDot(d.v[k], d.ux)), RMul(RAbs(p.b_y), AbsDot(d.v[k], d.uy)), RMul(RAbs(p.c), AbsDot(d.v[k], d.u)), RAbs(d.f[k])>>)
   ELSE RSum(<<diff, RAbs(d.f[k])>>)
\* |computed - exact| when every residual is off by at most rel * (its scale)
LossTol(res, scales, rel) == Mean([k \in 1..Len(res) |-> LET e == RMul(scales[k], rel) IN RMul(e, RAdd(RMul(RI(2), RAbs(res[k])), e))])

(*----------------- polynomials in the reference coordinates ---------------*)
\* b[i][j] is the coefficient of xi^(i-1) eta^(j-1)
BAt(b, i, j) == IF i >= 1 /\ i <= Len(b) /\ j >= 1 /\ j <= Len(b[1]) THEN b[i][j] ELSE R0
MaxI(a, b) == IF a >= b THEN a ELSE b
BAdd(a0, b0) == LET a == TLCEval(a0) b == TLCEval(b0) IN TLCEval([i \in 1..MaxI(Len(a), Len(b)) |-> [j \in 1..MaxI(Len(a[1]), Len(b[1])) |-> RAdd(BAt(a, i, j), BAt(b, i, j))]])
BScale(k0, b0) == LET k == TLCEval(k0) b == TLCEval(b0) IN TLCEval([i \in 1..Len(b) |-> VScale(k, b[i])])
BMul(a0, b0) == LET a == TLCEval(a0) b == TLCEval(b0) IN TLCEval([i \in 1..(Len(a) + Len(b) - 1) |-> [j \in 1..(Len(a[1]) + Len(b[1]) - 1) |->
   RSum([m \in 1..(Len(a) * Len(a[1])) |-> LET s == ((m - 1) \div Len(a[1])) + 1 t == ((m - 1) % Len(a[1])) + 1 IN
         RMul(a[s][t], BAt(b, i + 1 - s, j + 1 - t))])]])
BConst(k) == << <<k>> >>
RECURSIVE BPow(_, _)
BPow(b0, n) == LET b == TLCEval(b0) IN IF n = 0 THEN BConst(R1) ELSE TLCEval(BMul(b, BPow(b, n - 1)))
\* coordinate m of the cell map, and entries of its Jacobian matrix
BMap(A) == TLCEval(<< <<A[1], A[3]>>, <<A[2], A[4]>> >>)
BDXi(A) == TLCEval(<< <<A[2], A[4]>> >>)
BDEta(A) == TLCEval(<< <<A[3]>>, <<A[4]>> >>)
\* polynomial c (terms [i, j, v]) after the cell map F
RECURSIVE BSum(_)
BSum(s0) == LET s == TLCEval(s0) IN IF s = <<>> THEN BConst(R0) ELSE TLCEval(BAdd(Head(s), BSum(Tail(s))))
Compose(c0, F0) == LET c == TLCEval(c0) F == TLCEval(F0) X == TLCEval(BMap(F[1])) Y == TLCEval(BMap(F[2])) IN
   BSum([k \in 1..Len(c) |-> TLCEval(BScale(c[k].v, BMul(BPow(X, c[k].i), BPow(Y, c[k].j))))])
\* moments of one-dimensional functions: integral of x^a p(x), a = 0..n-1
Moments(p0, n) == LET p == TLCEval(p0) IN TLCEval([a \in 1..n |-> RSum([i \in 1..Len(p) |-> IF (i + a) % 2 = 0 THEN RMul(p[i], RQ(2, i + a - 1)) ELSE R0])])
AbsB(b0) == LET b == TLCEval(b0) IN RSum([i \in 1..Len(b) |-> RSum(VAbs(b[i]))])

(*----------------- weak residual of polynomial data on a cell -------------*)
\* polynomials multiplying v, dv/dxi, dv/deta in the integral of
\*   eps grad u . grad v + b . grad u v + c u v - f v   (Helmholtz: k^2 u v - eps grad u . grad v - f v)
WeakData(eq, F0, sgn, u0, f0, p) ==
   LET F == TLCEval(F0) u == TLCEval(u0) f == TLCEval(f0)
       ux == TLCEval(Compose(PolyDx(u), F)) uy == TLCEval(Compose(PolyDy(u), F)) uu == TLCEval(Compose(u, F)) ff == TLCEval(Compose(f, F))
       xx == BDXi(F[1]) xe == BDEta(F[1]) yx == BDXi(F[2]) ye == BDEta(F[2])
       s == RI(sgn)
       det == TLCEval(BScale(s, BAdd(BMul(xx, ye), BScale(RI(-1), BMul(xe, yx)))))
       k1 == IF eq = "helmholtz" THEN RNeg(p.eps) ELSE p.eps
       mass == IF eq = "helmholtz" THEN BScale(RSq(p.k), uu)
               ELSE IF HasConv(eq) THEN BAdd(BAdd(BScale(p.b_x, ux), BScale(p.b_y, uy)), BScale(p.c, uu)) ELSE BConst(R0)
   IN [ v0 |-> TLCEval(BMul(det, BAdd(mass, BScale(RI(-1), ff)))),
        \* grad v |J| = sgn * cofactor . reference gradient
        vx |-> TLCEval(BScale(RMul(k1, s), BAdd(BMul(ye, ux), BScale(RI(-1), BMul(xe, uy))))),
        ve |-> TLCEval(BScale(RMul(k1, s), BAdd(BMul(xx, uy), BScale(RI(-1), BMul(yx, ux))))) ]
Pair(b0, mi0, mj0) == LET b == TLCEval(b0) mi == TLCEval(mi0) mj == TLCEval(mj0) IN RSum([i \in 1..Len(b) |-> RMul(mi[i], RSum([j \in 1..Len(b[1]) |-> RMul(b[i][j], mj[j])]))])
WeakSize(W) == MaxI(MaxI(MaxI(Len(W.v0), Len(W.v0[1])), MaxI(Len(W.vx), Len(W.vx[1]))), MaxI(Len(W.ve), Len(W.ve[1])))
WeakResiduals(data, type, N) ==
   LET W == TLCEval(data)
       n == WeakSize(W)
       M == TLCEval([i \in 1..N |-> Moments(TF1(type, i - 1), n)])
       D == TLCEval([i \in 1..N |-> Moments(PDer(TF1(type, i - 1)), n)])
   IN TLCEval([k \in 1..(N * N) |-> LET i == RowI(N, k) j == RowJ(N, k) IN
         RSum(<<Pair(W.v0, M[i], M[j]), Pair(W.vx, D[i], M[j]), Pair(W.ve, M[i], D[j])>>)])
WeakScales(W0, type, N) == LET W == TLCEval(W0)
      a0 == TLCEval(AbsB(W.v0)) ax == TLCEval(AbsB(W.vx)) ae == TLCEval(AbsB(W.ve))
      t == TLCEval([m \in 1..N |-> <<TF1Scale(type, m - 1, 0), TF1Scale(type, m - 1, 1)>>]) IN
   TLCEval([k \in 1..(N * N) |-> LET i == RowI(N, k) j == RowJ(N, k) IN
      RMul(RI(4), RSum(<<RMul(a0, RMul(t[i][1], t[j][1])), RMul(ax, RMul(t[i][2], t[j][1])), RMul(ae, RMul(t[i][1], t[j][2]))>>))])
\* forcing that makes u the solution
Laplace(u) == TLCEval(PolyDx(TLCEval(PolyDx(u))) \o PolyDy(TLCEval(PolyDy(u))))
TScale(k, c0) == LET c == TLCEval(c0) IN TLCEval([i \in 1..Len(c) |-> [c[i] EXCEPT !.v = RMul(k, @)]])
Matching(eq, u, p) == IF eq = "helmholtz" THEN TScale(p.eps, Laplace(u)) \o TScale(RSq(p.k), u)
   ELSE TScale(RNeg(p.eps), Laplace(u)) \o (IF HasConv(eq) THEN TScale(p.b_x, PolyDx(u)) \o TScale(p.b_y, PolyDy(u)) \o TScale(p.c, u) ELSE <<>>)
Vanishing == BasisTypes \ {"jacobi_plain"}
Orient(cell) == RSgn(CellArea2(cell))
=============================================================================
