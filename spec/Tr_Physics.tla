----------------------------- MODULE Tr_Physics -----------------------------
(* Binds Physics to recorded loss evaluations: on given tensors (C18) and at   *)
(* the end of the pipeline geometry -> space -> handler -> loss (C19).         *)
EXTENDS Physics, TraceBase
VARIABLE hspace      \* handler -> space it was built on
vars == <<spaces, tables, hspace, l, bad>>
View == <<l>>
Init == FInit /\ hspace = <<>> /\ BInit
Pass == UNCHANGED <<spaces, tables, hspace>>
TStart == IsOp("start") /\ spaces' = <<>> /\ tables' = <<>> /\ hspace' = <<>> /\ Consume({})
TPrep == l <= Len(Trace) /\ ~Broken /\ Trace[l].op \in {"geo.new", "geo.internal", "geo.read"} /\ Pass /\ Consume({})
(*------------------------------ C18 ---------------------------------------*)
Rel18 == IF E.dtype = "float32" THEN RPow2(-16) ELSE RPow2(-40)
CellData(c) == [v |-> E.v[c], gx |-> E.gx[c], gy |-> E.gy[c], u |-> E.u[c], ux |-> E.ux[c], uy |-> E.uy[c],
                coef |-> E.coef[c], f |-> [m \in 1..Len(E.f) |-> E.f[m][c]]]
OneCell(c) == LET d == TLCEval(CellData(c))  M == Len(d.v)
      res == TLCEval([m \in 1..M |-> Residual(E.eq, d, E.p, m)])
      sc == TLCEval([m \in 1..M |-> TermScale(E.eq, d, E.p, m)])
      want == TLCEval(Mean([m \in 1..M |-> RSq(res[m])])) IN
   RClose(E.loss[c], want, RAdd(LossTol(res, sc, Rel18), RMul(want, Rel18)))
TLoss == IsOp("phys.loss") /\ Pass
   /\ Consume(IF ~On("C18") THEN {} ELSE IF ~E.ok THEN C("C18", "a supported loss is computed", FALSE) ELSE
      Then(C("C18", "one value per cell", IsArr(E.loss, <<Len(E.v)>>)),
           C("C18", "the mean over test functions of the squared weak residual of that cell", \A c \in 1..Len(E.v) : OneCell(c))
           \cup C("C18", "in the floating-point type of the data", E.dt = E.dtype)))
(*------------------------------ C19 ---------------------------------------*)
TSpace == IsOp("fe.space")
   /\ (IF E.ok THEN NewSpace(E.obj, [cells |-> E.cells, order |-> E.order, type |-> E.type]) /\ UNCHANGED hspace ELSE Pass)
   /\ Consume(C(Prop, "a space with supported options is built", E.ok))
THandler == IsOp("data.handler")
   /\ (IF E.ok THEN hspace' = FPut(hspace, E.obj, E.space) /\ UNCHANGED <<spaces, tables>> ELSE Pass)
   /\ Consume(C(Prop, "a handler on a space with a supported type is built", E.ok))
S == spaces[hspace[E.obj]]
CoordR(cell) == LET A == CellMap(cell) size == MaxAbs(<<A[1][2], A[1][3], A[2][2], A[2][3]>>) IN RAdd(R1, RDiv(MaxAbs(cell), size))
Rel19(cell) == RMul(IF E.dtype = "float32" THEN RPow2(-16) ELSE RPow2(-30), RSq(CoordR(cell)))
IsSolution == LET d == TLCEval(TScale(RI(-1), E.f.c) \o Matching(E.eq, E.u.c, E.p)) IN
   \A q \in { <<RQ(i, 3), RQ(j, 5)>> : i \in 0..5, j \in 0..5 } : PolyEval(d, q) = R0
PipeCell(c, sol) == LET sp == TLCEval(S)  cell == TLCEval(sp.cells[c])
      W == TLCEval(WeakData(E.eq, CellMap(cell), Orient(cell), E.u.c, E.f.c, E.p))  NN == sp.order * sp.order
      rel == TLCEval(Rel19(cell))
      res == TLCEval(WeakResiduals(W, sp.type, sp.order))
      sc == TLCEval(WeakScales(W, sp.type, sp.order))
      want == TLCEval(Mean([m \in 1..NN |-> RSq(res[m])])) IN
   \* TLC keeps a LET value only when it is demanded before the expressions that use it
   IF ~(Len(cell) = 4 /\ Len(W.v0) > 0 /\ RLeq(R0, rel) /\ Len(res) = NN /\ Len(sc) = NN /\ RLeq(R0, want)) THEN {<<"C19", "evaluable">>} ELSE
   C("C19", "the loss of a cell is the mean squared weak residual over the physical cell", RClose(E.loss[c], want, RAdd(LossTol(res, sc, rel), RMul(want, rel))))
   \cup C("C19", "an exact solution has zero residual in every cell", sol => RLeq(E.loss[c], Mean([m \in 1..NN |-> RSq(RMul(sc[m], rel))])))
TPipe == IsOp("phys.pipe") /\ Pass
   /\ Consume(IF ~On("C19") THEN {} ELSE IF ~E.ok THEN C("C19", "the pipeline yields losses", FALSE) ELSE
      Then(C("C19", "one loss per cell", IsArr(E.loss, <<Len(S.cells)>>)),
           LET sol == TLCEval(S.type \in Vanishing /\ IsSolution) IN UNION {PipeCell(c, sol) : c \in 1..Len(S.cells)}))
Next == (TBroken /\ Pass) \/ TStart \/ TPrep \/ TLoss \/ TSpace \/ THandler \/ TPipe \/ (Finish /\ Pass)
Spec == Init /\ [][Next]_vars
=============================================================================
