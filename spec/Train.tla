-------------------------------- MODULE Train --------------------------------
(***************************************************************************)
(* Specification of the networks and of training: dense networks (values    *)
(* and derivatives in x and y), the losses a step reports, their gradient   *)
(* (by transposed differentiation of the network and of the losses), and    *)
(* one Adam update with the learning-rate schedule.                         *)
(*                                                                         *)
(* Everything is computed in two modes: "real" gives the exact value        *)
(* (rounded to Bits significant bits where numbers would grow), "abs" the   *)
(* same expressions with absolute values throughout, which bounds every     *)
(* intermediate result and so the rounding of a floating-point evaluation.  *)
(***************************************************************************)
EXTENDS Physics, SequencesExt
Bits == 160
(*------------------------------ activations -------------------------------*)
\* <<value, first, second derivative>>
Sig(x) == IF RLt(RI(150), x) THEN R1 ELSE IF RLt(x, RI(-150)) THEN R0 ELSE RDiv(R1, RAdd(R1, RExp(RNeg(x), Bits)))
ActT(act, x) ==
   CASE act = "linear" -> <<x, R1, R0>>
     [] act = "relu" -> IF RLt(R0, x) THEN <<x, R1, R0>> ELSE <<R0, R0, R0>>
     [] act = "square" -> <<RSq(x), RMul(RI(2), x), RI(2)>>
     [] act = "sigmoid" -> Bind(RRound(Sig(x), Bits), LAMBDA s : Bind(RMul(s, RSub(R1, s)), LAMBDA d : <<s, d, RMul(d, RSub(R1, RMul(RI(2), s)))>>))
     [] act = "tanh" -> Bind(RSub(RMul(RI(2), RRound(Sig(RMul(RI(2), x)), Bits)), R1), LAMBDA s : Bind(RSub(R1, RSq(s)), LAMBDA d : <<s, d, RMul(RI(-2), RMul(s, d))>>))
ActAbs(act, x) ==
   CASE act \in {"linear", "relu"} -> <<x, R1, R0>>
     [] act = "square" -> <<RSq(x), RMul(RI(2), x), RI(2)>>
     [] OTHER -> <<RAdd(R1, x), RAdd(R1, x), RMul(RI(2), RAdd(R1, x))>>
Triple(mode, act, x) == IF mode = "abs" THEN ActAbs(act, x) ELSE ActT(act, x)
(*-------------------------------- networks --------------------------------*)
\* layer: w[i][j] kernel (input, output), wt its transpose, b bias
NParams(dims) == LET n[i \in 1..Len(dims)] == IF i = 1 THEN 0 ELSE n[i - 1] + (dims[i - 1] + 1) * dims[i] IN n[Len(dims)]
MkLayer(nin, nout, f, o) ==
   [w |-> TLCEval([i \in 1..nin |-> TLCEval([j \in 1..nout |-> f[o + (i - 1) * nout + j]])]),
    wt |-> TLCEval([j \in 1..nout |-> TLCEval([i \in 1..nin |-> f[o + (i - 1) * nout + j]])]),
    b |-> TLCEval([j \in 1..nout |-> f[o + nin * nout + j]])]
\* network of the flat parameter sequence: per layer the kernel row by row, then the bias
Net(dims, f) == TLCEval([i \in 1..(Len(dims) - 1) |-> MkLayer(dims[i], dims[i + 1], f, NParams(SubSeq(dims, 1, i)))])
Mat(rows, z) == TLCEval([j \in 1..Len(rows) |-> RRound(RDot(rows[j], z), Bits)])
\* one layer, s = [z, zx, zy] its input and the derivatives of its input in x and y
Layer(L, mode, act, s) ==
   Bind(Mat(L.wt, s.z), LAMBDA a0 :
   Bind([j \in 1..Len(a0) |-> Triple(mode, act, RAdd(a0[j], L.b[j]))], LAMBDA t :
   Bind(<<Mat(L.wt, s.zx), Mat(L.wt, s.zy)>>, LAMBDA d :
     [L |-> L, in |-> s, t |-> t, ax |-> d[1], ay |-> d[2],
      out |-> [z |-> TLCEval([j \in 1..Len(t) |-> RRound(t[j][1], Bits)]), zx |-> TLCEval([j \in 1..Len(t) |-> RRound(RMul(t[j][2], d[1][j]), Bits)]),
               zy |-> TLCEval([j \in 1..Len(t) |-> RRound(RMul(t[j][2], d[2][j]), Bits)])]])))
\* all layers; the last one has no activation
Run(net, mode, act, p) ==
   FoldLeft(LAMBDA acc, L : Bind(Layer(L, mode, IF Len(acc.steps) = Len(net) - 1 THEN "linear" ELSE act, acc.out), LAMBDA y : [steps |-> Append(acc.steps, y), out |-> y.out]),
            [steps |-> <<>>, out |-> [z |-> p, zx |-> <<R1, R0>>, zy |-> <<R0, R1>>]], net)
Predict(net, act, p) == Run(net, "real", act, p).out.z
\* transposed: g = [u, x, y] derivatives of a functional in the outputs and their derivatives; result: flat gradient in all parameters
Pull(run, g) ==
   FoldRight(LAMBDA y, acc :
      Bind([a |-> TLCEval([j \in 1..Len(y.t) |-> RRound(RAdd(RMul(y.t[j][2], acc.g.u[j]), RMul(y.t[j][3], RAdd(RMul(y.ax[j], acc.g.x[j]), RMul(y.ay[j], acc.g.y[j])))), Bits)]),
            x |-> TLCEval([j \in 1..Len(y.t) |-> RRound(RMul(y.t[j][2], acc.g.x[j]), Bits)]),
            y |-> TLCEval([j \in 1..Len(y.t) |-> RRound(RMul(y.t[j][2], acc.g.y[j]), Bits)])], LAMBDA h :
        [g |-> [u |-> Mat(y.L.w, h.a), x |-> Mat(y.L.w, h.x), y |-> Mat(y.L.w, h.y)],
         grad |-> LET no == Len(y.t) ni == Len(y.L.w) IN
            TLCEval([k \in 1..((ni + 1) * no) |-> LET i == ((k - 1) \div no) + 1 j == ((k - 1) % no) + 1 IN
              IF i > ni THEN h.a[j] ELSE RAdd(RMul(y.in.z[i], h.a[j]), RAdd(RMul(y.in.zx[i], h.x[j]), RMul(y.in.zy[i], h.y[j])))]) \o acc.grad]),
      run.steps, [g |-> g, grad |-> <<>>]).grad
(*--------------------------- losses of a model ----------------------------*)
\* md: [kind, eq, act, dims, w (flat network parameters), inv, hard = [b, g] (polynomials), pts, v, gx, gy, f, bp, bv, sp, sv, ...]
A(mode, x) == IF mode = "abs" THEN RAbs(x) ELSE x
AV(mode, s) == IF mode = "abs" THEN VAbs(s) ELSE s
AM(mode, s) == IF mode = "abs" THEN TLCEval([i \in 1..Len(s) |-> VAbs(s[i])]) ELSE s
APoly(mode, c) == TLCEval([i \in 1..Len(c) |-> [c[i] EXCEPT !.v = A(mode, @)]])
\* u, ux, uy as linear functions of the network output: m[1] = value factor, m[2..3] = its derivatives, a = added values
Constr(md, mode, p) == IF md.kind # "hard" THEN [m |-> <<R1, R0, R0>>, a |-> <<R0, R0, R0>>] ELSE
   LET b == APoly(mode, md.hard.b) g == APoly(mode, md.hard.g) IN
   [m |-> TLCEval(<<PolyEval(b, p), PolyEval(PolyDx(b), p), PolyEval(PolyDy(b), p)>>), a |-> TLCEval(<<PolyEval(g, p), PolyEval(PolyDx(g), p), PolyEval(PolyDy(g), p)>>)]
\* solution and derivatives at a point: [run, c, u, x, y, coef]
SolAt(md, net, mode, p0) == Bind(AV(mode, p0), LAMBDA p : Bind(Run(net, mode, md.act, p), LAMBDA r : Bind(Constr(md, mode, p), LAMBDA c :
   [run |-> r, c |-> c, u |-> RAdd(RMul(c.m[1], r.out.z[1]), c.a[1]),
    x |-> RSum(<<RMul(c.m[1], r.out.zx[1]), RMul(c.m[2], r.out.z[1]), c.a[2]>>),
    y |-> RSum(<<RMul(c.m[1], r.out.zy[1]), RMul(c.m[3], r.out.z[1]), c.a[3]>>),
    coef |-> IF md.kind = "domain" THEN r.out.z[2] ELSE R0])))
\* gradient in the parameters of g[1] u + g[2] ux + g[3] uy + g[4] coef at a point
Back(md, s, g) == LET none == IF md.kind = "domain" THEN <<R0>> ELSE <<>> IN
   Pull(s.run, [u |-> <<RSum(<<RMul(s.c.m[1], g[1]), RMul(s.c.m[2], g[2]), RMul(s.c.m[3], g[3])>>)>> \o (IF md.kind = "domain" THEN <<g[4]>> ELSE <<>>),
                x |-> <<RMul(s.c.m[1], g[2])>> \o none, y |-> <<RMul(s.c.m[1], g[3])>> \o none])
\* coefficients of v*u, v*ux, v*uy and of grad v . grad u
TermCoefs(mode, eq, p) == LET z == R0 IN
   [u |-> A(mode, IF eq = "helmholtz" THEN RSq(p.k) ELSE IF HasConv(eq) THEN p.c ELSE z),
    x |-> A(mode, IF HasConv(eq) THEN p.b_x ELSE z), y |-> A(mode, IF HasConv(eq) THEN p.b_y ELSE z),
    e |-> A(mode, IF eq = "cd2d_inverse_domain" THEN R1 ELSE IF eq = "helmholtz" THEN RNeg(p.eps) ELSE Eps(eq, p))]
SumV(ss, n) == FoldLeft(LAMBDA acc, s : VAdd(acc, s), [i \in 1..n |-> R0], ss)
\* PDE part of one cell: loss, gradient in the network parameters, derivative in the constant coefficient
CellPart(md, net, mode, p, c) ==
   LET Q == Len(md.v[1][1])  M == Len(md.v[1]) IN
   Bind([q \in 1..Q |-> SolAt(md, net, mode, md.pts[(c - 1) * Q + q])], LAMBDA s :
   Bind([v |-> AM(mode, md.v[c]), gx |-> AM(mode, md.gx[c]), gy |-> AM(mode, md.gy[c]), f |-> [m \in 1..M |-> md.f[m][c]],
         u |-> [q \in 1..Q |-> s[q].u], ux |-> [q \in 1..Q |-> s[q].x], uy |-> [q \in 1..Q |-> s[q].y], coef |-> [q \in 1..Q |-> s[q].coef]], LAMBDA d :
   Bind([k \in 1..M |-> RRound(IF mode = "abs" THEN TermScale(md.eq, d, p, k) ELSE Residual(md.eq, d, p, k), Bits)], LAMBDA r :
   Bind([k \in 1..M |-> RMul(RQ(2, M), r[k])], LAMBDA h :
   Bind(TermCoefs(mode, md.eq, p), LAMBDA co :
   LET dom == md.eq = "cd2d_inverse_domain"
       e(q) == IF dom THEN d.coef[q] ELSE co.e
       col(t, q) == TLCEval([k \in 1..M |-> t[k][q]])
       sens == IF md.kind = "inverse" THEN RSum([k \in 1..M |-> RMul(h[k], RAdd(RDot(d.gx[k], d.ux), RDot(d.gy[k], d.uy)))]) ELSE R0
       part(q) == Bind(<<RDot(h, col(d.v, q)), RDot(h, col(d.gx, q)), RDot(h, col(d.gy, q))>>, LAMBDA w :
                    Back(md, s[q], <<RMul(co.u, w[1]), RAdd(RMul(e(q), w[2]), RMul(co.x, w[1])), RAdd(RMul(e(q), w[3]), RMul(co.y, w[1])),
                                     IF dom THEN RAdd(RMul(w[2], d.ux[q]), RMul(w[3], d.uy[q])) ELSE R0>>)) IN
   [loss |-> Mean([k \in 1..M |-> RSq(r[k])]), inv |-> sens,
    grad |-> TLCEval(SumV([q \in 1..Q |-> part(q)], Len(md.w)))])))))
\* mean squared mismatch at given points, and its gradient
FitPart(md, net, mode, pts, vals) == IF pts = <<>> THEN [loss |-> R0, grad |-> TLCEval([i \in 1..Len(md.w) |-> R0])] ELSE
   Bind([i \in 1..Len(pts) |-> SolAt(md, net, mode, pts[i])], LAMBDA s :
   Bind([i \in 1..Len(pts) |-> IF mode = "abs" THEN RAdd(s[i].u, RAbs(vals[i])) ELSE RSub(s[i].u, vals[i])], LAMBDA e :
     [loss |-> Mean([i \in 1..Len(e) |-> RSq(e[i])]),
      grad |-> TLCEval(SumV([i \in 1..Len(e) |-> Back(md, s[i], <<RMul(RQ(2, Len(e)), e[i]), R0, R0, R0>>)], Len(md.w)))]))
HasSensors(md) == md.kind \in {"inverse", "domain"}
SensorFactor == RI(10)
AbsP(p) == TLCEval([n \in DOMAIN p |-> RAbs(p[n])])
\* everything a step reports and the gradient of the total loss in all trainable quantities (network, then the constant coefficient)
Evaluate(md, mode, beta0, p0) ==
   LET beta == A(mode, beta0)  p == IF mode = "abs" THEN AbsP(p0) ELSE p0 IN
   Bind(Net(md.dims, AV(mode, md.w)), LAMBDA net :
   Bind([c \in 1..Len(md.v) |-> CellPart(md, net, mode, p, c)], LAMBDA cells :
   Bind(FitPart(md, net, mode, IF md.kind = "hard" THEN <<>> ELSE md.bp, md.bv), LAMBDA bnd :
   Bind(FitPart(md, net, mode, IF HasSensors(md) THEN md.sp ELSE <<>>, md.sv), LAMBDA sen :
   Bind(RSum([c \in 1..Len(cells) |-> cells[c].loss]), LAMBDA pde :
     [pde |-> pde, bnd |-> bnd.loss, sens |-> sen.loss, tot |-> RSum(<<pde, RMul(beta, bnd.loss), RMul(SensorFactor, sen.loss)>>),
      grad |-> TLCEval(VAdd(SumV([c \in 1..Len(cells) |-> cells[c].grad], Len(md.w)), VAdd(VScale(beta, bnd.grad), VScale(SensorFactor, sen.grad))))
               \o (IF md.kind = "inverse" THEN <<RSum([c \in 1..Len(cells) |-> cells[c].inv])>> ELSE <<>>)])))))
(*---------------------------------- Adam ----------------------------------*)
Beta1 == RS("0.9")
Beta2 == RS("0.999")
AdamEps == RS("0.0000001")
Root(x) == RRoot(x, 2, 100)
\* learning rate of the step after t steps; the decay period is lr.steps / lr.sden
Rate(lr, t) == IF ~lr.sched THEN lr.lr0
   ELSE RMul(lr.lr0, IF lr.stair THEN RRound(RPowN(lr.rate, (t * lr.sden) \div lr.steps), Bits) ELSE RRoot(RRound(RPowN(lr.rate, t * lr.sden), 300), lr.steps, 100))
\* moments after one more gradient g; dm, dv bound the effect of errors of size e in g (in v: of e in the norm)
Moment(b, x, g) == RRound(RAdd(RMul(b, x), RMul(RSub(R1, b), g)), Bits)
Adam0(n) == TLCEval([t |-> 0, m |-> [i \in 1..n |-> R0], v |-> [i \in 1..n |-> R0], dm |-> [i \in 1..n |-> R0], dv |-> [i \in 1..n |-> R0]])
AdamNext(ad, g, e) == LET n == Len(ad.m) IN
   TLCEval([t |-> ad.t + 1, m |-> TLCEval([i \in 1..n |-> Moment(Beta1, ad.m[i], g[i])]), v |-> TLCEval([i \in 1..n |-> Moment(Beta2, ad.v[i], RSq(g[i]))]),
            dm |-> TLCEval([i \in 1..n |-> Moment(Beta1, ad.dm[i], e[i])]), dv |-> TLCEval([i \in 1..n |-> Moment(Beta2, ad.dv[i], RSq(e[i]))])])
\* ad: after the step, rate: of the step
Alpha(ad, rate) == RRound(RDiv(RMul(rate, Root(RSub(R1, RPowN(Beta2, ad.t)))), RSub(R1, RPowN(Beta1, ad.t))), Bits)
Moves(ad, rate) == Bind(Alpha(ad, rate), LAMBDA al : TLCEval([i \in 1..Len(ad.m) |-> RRound(RDiv(RMul(al, ad.m[i]), RAdd(Root(ad.v[i]), AdamEps)), Bits)]))
\* error of the move caused by the errors of the gradients
MoveTol(ad, rate) == Bind(Alpha(ad, rate), LAMBDA al : TLCEval([i \in 1..Len(ad.m) |->
   Bind(RAdd(Root(ad.v[i]), AdamEps), LAMBDA D : Bind(Root(ad.dv[i]), LAMBDA ds :
     IF RLt(D, RMul(RI(2), ds)) THEN RMul(RI(10), rate)
     ELSE RMul(al, RAdd(RDiv(ad.dm[i], RSub(D, ds)), RDiv(RMul(RAbs(ad.m[i]), ds), RMul(D, RSub(D, ds))))))) ]))
=============================================================================
