-------------------------------- MODULE Tr_FE --------------------------------
(* Binds FE to recorded calls: rules, test functions, spaces and their queries. *)
EXTENDS FE, TraceBase
vars == <<spaces, tables, l, bad>>
View == <<l>>
Init == FInit /\ BInit
TStart == IsOp("start") /\ spaces' = <<>> /\ tables' = <<>> /\ Consume({})

(*----------------------------- quadrature (C07) ---------------------------*)
QTol == RPow2(-30)
QuadFails == LET n == E.n  N == n * n  w == E.w xi == E.xi eta == E.eta IN
   Then(C("C07", "n*n points with one weight each", IsArr(w, <<N>>) /\ IsArr(xi, <<N>>) /\ IsArr(eta, <<N>>) /\ E.npts = N),
   Then(C("C07", "points form a tensor grid, first coordinate fastest", IsTensor(w, xi, eta, n, RPow2(-45)))
        \cup C("C07", "weights are positive", \A q \in 1..N : RSgn(w[q]) > 0)
        \cup C("C07", "weights sum to 4", RClose(RSum(w), RI(4), QTol))
        \cup C("C07", "points lie in the reference square (interior / with corners)",
               IF E.qtype = "gauss-legendre" THEN \A i \in 1..n : RLt(RAbs(xi[i]), R1)
               ELSE (\A i \in 1..n : RLeq(RAbs(xi[i]), R1)) /\ {R1, RI(-1)} \subseteq {xi[i] : i \in 1..n}),
   LET W == TLCEval([i \in 1..n |-> ColWeight(w, n, i)]) IN
        C("C07", "every weight belongs to its point (product of the one-dimensional weights)",
          \A i, j \in 1..n : RClose(w[(j - 1) * n + i], RMul(W[i], W[j]), RMul(QTol, RMul(W[i], W[j]))))
        \cup C("C07", "exact for every polynomial within the promised degree", Exact1D([i \in 1..n |-> xi[i]], W, Exactness(E.qtype, n), QTol))))
TQuad == IsOp("fe.quad") /\ UNCHANGED fvars
   /\ Consume(IF ~E.ok THEN C("C07", "a supported rule is available", FALSE) ELSE IF On("C07") THEN QuadFails ELSE {})

(*------------------------ test functions (C08, C09) -----------------------*)
BProp == IF E.what = "value" THEN "C08" ELSE "C09"
RowsOK(v, t, type, N, what) == \A k \in 1..(N * N) : AllClose(v[k], t[k], RMul(BasisScale(type, N, what, k), RPow2(-28)))
BoundaryOK(v, N) == \A q \in 1..Len(E.xi) :
   (RAbs(E.xi[q]) = R1 \/ RAbs(E.eta[q]) = R1) => \A k \in 1..(N * N) : RLeq(RAbs(v[k][q]), RPow2(-28))
TBasis == IsOp("fe.basis") /\ UNCHANGED fvars
   /\ Consume(IF ~E.ok THEN C(BProp, "a supported family is available", FALSE) ELSE
      IF ~On(BProp) THEN {} ELSE
      Then(C(BProp, "one row per test function, one column per point", IsArr(E.val, <<E.order * E.order, Len(E.xi)>>))
           \cup C("C08", "N*N test functions", E.nsf = E.order * E.order),
           C(BProp, IF BProp = "C08" THEN "row i*N+j is the product of the i-th and j-th one-dimensional functions" ELSE "rows are the exact derivatives",
             RowsOK(E.val, BasisTable(E.type, E.order, E.what, E.xi, E.eta), E.type, E.order, E.what))
           \cup C("C08", "test functions vanish on the boundary of the reference square",
                  (E.what = "value" /\ E.type # "jacobi_plain") => BoundaryOK(E.val, E.order))))

(*------------------------------- spaces -----------------------------------*)
NeedB == On("C09") \/ On("C11") \/ On("C08")
Whats == {"value", "gradx", "grady", "gradxx", "gradxy", "gradyy"}
TSpace == IsOp("fe.space")
   /\ NewSpace(E.obj, [cells |-> E.cells, order |-> E.order, type |-> E.type, trans |-> E.trans, f |-> E.f, vector |-> E.vector,
                       rw |-> E.rw, rxi |-> E.rxi, reta |-> E.reta, nq |-> Len(E.rw),
                       F |-> TLCEval([c \in 1..Len(E.cells) |-> CellMap(E.cells[c])]),
                       B |-> IF NeedB THEN TLCEval([w \in Whats |-> BasisTable(E.type, E.order, w, E.rxi, E.reta)]) ELSE <<>>])
   /\ Consume(C(Prop, "a space over convex cells with supported options is built", E.ok)
              \cup C("C10", "the space has every cell", E.ok => E.ncells = Len(E.cells)))

(*---- expectations for one cell ----*)
S == spaces[E.obj]
CellNo == E.cell + 1
F == S.F[CellNo]
J(q) == Jac(F, S.rxi[q], S.reta[q])
Key(acc) == <<E.obj, acc, E.cell, 0>>
Has(acc) == Key(acc) \in DOMAIN tables
Spec_W == [q \in 1..S.nq |-> RMul(S.rw[q], RAbs(Det(J(q))))]
Obs_W == IF Has("w") THEN tables[Key("w")] ELSE Spec_W
Coord(cell) == MaxAbs(cell)
Size(cell) == LET A == CellMap(cell) IN RMax2(MaxAbs(<<A[1][2], A[1][3], A[1][4]>>), MaxAbs(<<A[2][2], A[2][3], A[2][4]>>))
\* relative rounding: 2^-32 plus the cancellation in differences of corner coordinates
Rel(k) == LET c == S.cells[CellNo] IN RAdd(RPow2(-k), RMul(RPow2(-46), RDiv(Coord(c), Size(c))))
NRows == S.order * S.order
Dims2 == <<NRows, S.nq>>
MaxJ == Size(S.cells[CellNo])
MinDet == RMinSeq([q \in 1..S.nq |-> RAbs(Det(J(q)))])
PtsFails == C("C10", "physical points are the images of the reference points",
      IsArr(E.val, <<S.nq, 2>>) /\ AllClose(E.val, [q \in 1..S.nq |-> MapPt(F, S.rxi[q], S.reta[q])], RMul(Coord(S.cells[CellNo]), RPow2(-46))))
WFails == Then(C("C10", "one weight per quadrature point", IsArr(E.val, <<S.nq>>)),
      C("C10", "physical weights are reference weights times the Jacobian",
        \A q \in 1..S.nq : RClose(E.val[q], Spec_W[q], RMul(RMul(S.rw[q], RMul(RSq(MaxJ), RI(4))), Rel(36))))
      \cup C("C10", "weights are positive", \A q \in 1..S.nq : RSgn(E.val[q]) > 0)
      \cup C("C10", "weights sum to the area of the cell",
             RClose(RMul(RI(2), RSum(E.val)), RAbs(CellArea2(S.cells[CellNo])), RMul(RMul(RSq(MaxJ), RI(16)), Rel(34)))))
\* rows of weight * expectation
WRows(w, T) == [k \in 1..NRows |-> VMul(w, T[k])]
ValFails == LET w == TLCEval(Obs_W) IN C("C11", "stored values are weight times test function",
      IsArr(E.val, Dims2) /\ \A k \in 1..NRows : AllClose(E.val[k], VMul(w, S.B["value"][k]),
           RMul(RMul(MaxAbs(w), BasisScale(S.type, S.order, "value", k)), RPow2(-28))))
GradFails == LET w == TLCEval(Obs_W)  JJ == TLCEval([q \in 1..S.nq |-> J(q)])
                 sc == TLCEval(RMul(RMul(MaxAbs(w), RDiv(MaxJ, MinDet)), Rel(29)))
                 m == IF E.acc = "gx" THEN 1 ELSE 2 IN
   C("C11", "stored gradients are weight times the physical gradient (chain rule)",
      IsArr(E.val, Dims2) /\ \A k \in 1..NRows :
         AllClose(E.val[k], [q \in 1..S.nq |-> RMul(w[q], PhysGrad(JJ[q], S.B["gradx"][k][q], S.B["grady"][k][q])[m])],
            RMul(sc, RAdd(BasisScale(S.type, S.order, "gradx", k), BasisScale(S.type, S.order, "grady", k)))))
HessFails == LET w == TLCEval(Obs_W)  JJ == TLCEval([q \in 1..S.nq |-> J(q)])
                 sc == TLCEval(RMul(RMul(MaxAbs(w), RSq(RDiv(MaxJ, MinDet))), RMul(RI(8), Rel(25))))
                 m == CASE E.acc = "gxx" -> 1 [] E.acc = "gxy" -> 2 [] E.acc = "gyy" -> 3 IN
   C("C11", "stored second derivatives are weight times the physical second derivatives",
      S.trans = "affine" => (IsArr(E.val, Dims2) /\ \A k \in 1..NRows :
         AllClose(E.val[k], [q \in 1..S.nq |-> RMul(w[q], PhysHess(JJ[q], S.B["gradxx"][k][q], S.B["gradxy"][k][q], S.B["gradyy"][k][q])[m])],
            RMul(sc, RSum(<<BasisScale(S.type, S.order, "gradxx", k), BasisScale(S.type, S.order, "gradxy", k), BasisScale(S.type, S.order, "gradyy", k)>>)))))
RefFails == LET what == IF E.acc = "gxref" THEN "gradx" ELSE "grady" IN
   C("C09", "reference gradients of a space are the exact derivatives",
      IsArr(E.val, Dims2) /\ RowsOK(E.val, S.B[what], S.type, S.order, what))
\* forcing: from the values and points this space has shown
ForceFails ==
   IF ~(Has("val") /\ Has("pts")) THEN {} ELSE
   LET V == tables[Key("val")] P == tables[Key("pts")]
       f == S.f[E.comp + 1]
       fv == TLCEval(IF FnExact(f) THEN [q \in 1..S.nq |-> RRound(FnEval(f, P[q]), 200)] ELSE E.wit)
       fs == IF FnExact(f) THEN RMaxSeq([q \in 1..S.nq |-> FnScale(f, P[q])]) ELSE R1 IN
   C("C12", "forcing is the sum of forcing function times stored test function over the cell's points",
      IsArr(E.val, <<NRows, 1>>) /\ \A k \in 1..NRows :
         RClose(E.val[k][1], RDot(V[k], fv), RMul(RMul(MaxAbs(V[k]), RMul(RI(S.nq), fs)), RPow2(-40))))
\* rounding at a jump of the forcing function may fall on either side
JumpNear == LET f == S.f[E.comp + 1] IN f.kind = "step" /\ Has("pts") /\
   \E q \in 1..S.nq : LET p == tables[Key("pts")][q] IN RLt(RAbs(RAdd(RAdd(RMul(f.abc[1], p[1]), RMul(f.abc[2], p[2])), f.abc[3])), RPow2(-30))
AccFails ==
   CASE E.acc = "pts" -> PtsFails
     [] E.acc = "w" -> WFails
     [] E.acc = "val" -> ValFails
     [] E.acc \in {"gx", "gy"} -> GradFails
     [] E.acc \in {"gxref", "gyref"} -> RefFails
     [] E.acc \in {"gxx", "gxy", "gyy"} -> HessFails
     [] E.acc \in {"force", "forcev"} -> IF JumpNear THEN {} ELSE ForceFails
AccProp == CASE E.acc \in {"pts", "w"} -> "C10" [] E.acc \in {"gxref", "gyref"} -> "C09" [] E.acc \in {"force", "forcev"} -> "C12" [] OTHER -> "C11"
\* the judged property's own clauses for this accessor
Clauses == IF On(AccProp) THEN AccFails ELSE {}
TGet == IsOp("fe.get")
   /\ IF ~InRange(E.obj, E.cell)
      THEN Refuse /\ Consume(C("C13", "a cell index outside the mesh is refused", ~E.ok))
      ELSE IF ~E.ok
      THEN Refuse /\ Consume(C(AccProp, "a valid query is answered", FALSE) \cup C("C13", "a valid query is answered", FALSE))
      ELSE LET key == <<E.obj, E.acc, E.cell, E.comp>> IN
           /\ Get(key, E.val)
           /\ Consume(C("C13", "the same query shows the same data, whatever was done to earlier copies", GetOK(key, E.val))
                      \cup C("C12", "a forcing query shows the same data as before", E.acc \in {"force", "forcev"} => GetOK(key, E.val))
                      \cup Clauses)

Next == (TBroken /\ UNCHANGED fvars) \/ TStart \/ TQuad \/ TBasis \/ TSpace \/ TGet \/ (Finish /\ UNCHANGED fvars)
Spec == Init /\ [][Next]_vars
=============================================================================
