------------------------------ MODULE Tr_Data ------------------------------
(* Binds Data to recorded calls: Dirichlet data, handlers, sensors, parameters. *)
EXTENDS Data, TraceBase
vars == <<spaces, tables, handlers, shown, l, bad>>
View == <<l>>
Init == DInit /\ BInit
Pass == UNCHANGED dvars
TStart == IsOp("start") /\ spaces' = <<>> /\ tables' = <<>> /\ handlers' = <<>> /\ shown' = <<>> /\ Consume({})
\* other layers' calls that only prepare objects
TPrep == l <= Len(Trace) /\ ~Broken /\ Trace[l].op \in {"geo.new", "geo.internal", "geo.read"} /\ Pass /\ Consume({})
TSpace ==
   /\ IsOp("fe.space")
   /\ IF E.ok THEN MakeSpace(E.obj, [bd |-> E.bd, ncells |-> E.ncells, box |-> E.box, vector |-> E.vector]) ELSE Pass
   /\ Consume(C(Prop, "a space with supported options is built", E.ok))
S == spaces[E.obj]
H == handlers[E.obj]

(*---------------------------- Dirichlet (C14) -----------------------------*)
\* value tolerances entry by entry
ValsOK(vals, b, comp, dtype) == LET sc == TLCEval(DirichletScale(b, comp)) ex == TLCEval(DirichletValues(b, comp)) IN
   \A k \in 1..Len(ex) : RClose(vals[k], ex[k], RAdd(RMul(Unit(dtype), RAbs(ex[k])), RAdd(RMul(sc[k], RPow2(-44)), Tiny(dtype))))
DirFails(b, pts, vals, comp, dtype) == LET n == Len(DirichletPairs(b)) IN
   Then(C("C14", "every boundary point once, tag by tag", (n = 0 /\ Len(vals) = 0) \/ (IsArr(pts, <<n, 2>>) /\ IsArr(vals, <<n>>))),
   Then(C("C14", "points in the order of the boundary dictionary", n = 0 \/ Converted(pts, DirichletPoints(b), dtype)),
        C("C14", "every point carries its own tag's value at that point", n = 0 \/ ValsOK(vals, b, comp, dtype))))
TDirichlet == IsOp("data.dirichlet") /\ Pass
   /\ Consume(IF ~On("C14") THEN {} ELSE IF ~E.ok THEN C("C14", "Dirichlet data are available", FALSE)
              ELSE DirFails(S.bd, E.pts, E.vals, E.comp + 1, "float64"))
THDirichlet == IsOp("data.hdirichlet") /\ Pass
   /\ Consume(IF ~On("C14") THEN {} ELSE IF ~E.ok THEN C("C14", "Dirichlet tensors are available", FALSE)
              ELSE LET b == spaces[H.space].bd  n == Len(DirichletPairs(b)) IN
                   Then(C("C14", "points as rows of two, values as one column, in the requested type",
                          E.dtp = H.dtype /\ E.dtv = H.dtype /\ E.shv = <<n, 1>> /\ (n > 0 => E.shp = <<n, 2>>)),
                        DirFails(b, E.pts, [k \in 1..Len(E.vals) |-> E.vals[k][1]], 1, H.dtype)))

(*---------------------------- handlers (C15) ------------------------------*)
TTables == IsOp("data.tables") /\ Show(<<"tables", E.obj>>, E.cells) /\ Consume(C("C15", "the space shows its tables", E.ok))
THandler ==
   /\ IsOp("data.handler")
   /\ IF E.valid
      THEN /\ IF E.ok THEN MakeHandler(E.obj, [space |-> E.space, dtype |-> E.dtype, domain |-> E.testpts]) ELSE Pass
           /\ Consume(C(Prop, "a handler on a space with a supported type is built", E.ok))
      ELSE /\ Pass
           /\ Consume(C("C15", "a requested type that is not a tensor type is refused", ~E.ok))
T == shown[<<"tables", H.space>>]
TensorFails == LET C0 == Len(T) Q == Len(T[1].pts) M == Len(T[1].val) IN
   Then(C("C15", "tensors of the requested type", \A t \in {E.dt[k] : k \in DOMAIN E.dt} : t = H.dtype)
        \cup C("C15", "extents: (cells*points, 2), (cells, functions, points), (functions, cells)",
               /\ E.sh[1] = <<C0 * Q, 2>> /\ E.sh[2] = <<C0, M, Q>> /\ E.sh[3] = <<C0, M, Q>> /\ E.sh[4] = <<C0, M, Q>> /\ E.sh[5] = <<M, C0>>),
      C("C15", "row c*Q+q is point q of cell c", Converted(E.x, CoordTensor(T), H.dtype))
      \cup C("C15", "value tensor is (cell, test function, point)", Converted(E.v, CellTensor(T, "val"), H.dtype))
      \cup C("C15", "x-gradient tensor is (cell, test function, point)", Converted(E.gx, CellTensor(T, "gx"), H.dtype))
      \cup C("C15", "y-gradient tensor is (cell, test function, point)", Converted(E.gy, CellTensor(T, "gy"), H.dtype))
      \cup C("C15", "forcing matrix is (test function, cell)", Converted(E.f, ForceMatrix(T), H.dtype)))
TTensors == IsOp("data.tensors") /\ Pass
   /\ Consume(IF ~On("C15") THEN {} ELSE IF ~E.ok THEN C("C15", "tensors are available", FALSE) ELSE TensorFails)
TTest == IsOp("data.testpts") /\ Pass
   /\ Consume(IF ~On("C15") THEN {} ELSE IF ~E.ok THEN C("C15", "test points are available", FALSE)
              ELSE C("C15", "test points are the domain's, in order, in the requested type", E.dt = H.dtype /\ Converted(E.pts, E.domain, H.dtype)))

(*----------------------------- sensors (C16) ------------------------------*)
\* parameters of the points along one coordinate of the bounding box
Param(pts, m, lo, hi) == [k \in 1..Len(pts) |-> RDiv(RSub(pts[k][m], lo), RSub(hi, lo))]
SensorTol(dtype) == IF dtype = "float32" THEN RPow2(-20) ELSE RPow2(-38)
InternalFails(box, pts, vals, f, n, dtype) ==
   LET k == Len(pts) w(m) == RSub(box[m][2], box[m][1])
       far(m) == RDiv(MaxAbs(box[m]), w(m))          \* cancellation when the box is far from the origin
       tol(m) == RMul(SensorTol(dtype), RAdd(R1, far(m))) IN
   Then(C("C16", "as many pairs as nine tenths of the request, rounded down", IsArr(pts, <<(9 * n) \div 10, 2>>) /\ IsArr(vals, <<k>>)),
        C("C16", "points lie in the bounding box, one in each of the equal pieces of either side",
          \A m \in 1..2 : Spread(Param(pts, m, box[m][1], box[m][2]), k, tol(m)))
        \cup C("C16", "each value is the exact solution at its own point",
          \A i \in 1..k : LET p == pts[i] IN
             RClose(vals[i], FnEval(f, p), RMul(IF dtype = "float32" THEN RPow2(-18) ELSE RPow2(-42), RAdd(FnScale(f, p), RMul(MaxAbs(p), FnSlope(f, p)))))))
FileFails(rows, pts, vals, n, dtype) ==
   Then(C("C16", "exactly as many rows as requested", IsArr(pts, <<n, 2>>) /\ Len(vals) = n),
        C("C16", "location and value come from the same row of the file",
          \A i \in 1..n : \E r \in 1..Len(rows) :
            /\ Converted(pts[i], <<rows[r][1], rows[r][2]>>, dtype)
            \* a row without a value has none in the data either
            /\ IF IsRat(rows[r][3]) THEN IsRat(vals[i]) /\ Converted(<<vals[i]>>, <<rows[r][3]>>, dtype) ELSE ~IsRat(vals[i])))
SensorFails(pts, vals, dtype) == IF E.kind = "internal" THEN InternalFails(spaces[E.space].box, pts, vals, E.f, E.n, dtype)
                                 ELSE FileFails(E.rows, pts, vals, E.n, dtype)
TSensor == IsOp("data.sensor") /\ Pass
   /\ Consume(IF ~On("C16") THEN {} ELSE IF ~E.ok THEN C("C16", "sensor data are available", FALSE) ELSE SensorFails(E.pts, E.vals, "float64"))
THSensor == IsOp("data.hsensor") /\ Pass
   /\ Consume(IF ~On("C16") THEN {} ELSE IF ~E.ok THEN C("C16", "sensor tensors are available", FALSE) ELSE
      Then(C("C16", "points as rows of two, values as one column, in the requested type",
             E.dtp = H.dtype /\ E.dtv = H.dtype /\ Len(E.shp) = 2 /\ E.shp[2] = 2 /\ E.shv = <<E.shp[1], 1>>),
           SensorFails(E.pts, [k \in 1..Len(E.vals) |-> E.vals[k][1]], H.dtype)))

(*--------------------------- parameters (C17) -----------------------------*)
Keys(s) == {s[i].key : i \in 1..Len(s)}
ValOf(s, k) == s[CHOOSE i \in 1..Len(s) : s[i].key = k]
ParamFails ==
   Then(C("C17", "exactly the same parameters", Len(E.res) = Len(E.given) /\ Keys(E.res) = Keys(E.given)),
        C("C17", "tensors of the requested type", \A i \in 1..Len(E.res) : E.res[i].dt = H.dtype)
        \cup C("C17", "every parameter has its own value",
             \A i \in 1..Len(E.res) : E.res[i].sh = ValOf(E.given, E.res[i].key).sh
                                      /\ Converted(E.res[i].v, ValOf(E.given, E.res[i].key).v, H.dtype))
        \cup C("C17", "the function is called for every conversion", E.calls >= 1)
        \cup C("C17", "the user's dictionary is left as it was", E.userafter = E.given))
TNewTest == IsOp("data.newtest") /\ Pass /\ Consume({})
TUserFn == IsOp("data.userfn") /\ Pass /\ Consume({})
TParams ==
   /\ IsOp("data.params")
   /\ IF E.ok THEN Show(<<E.obj, "params", E.res_id>>, E.res) ELSE Pass
   /\ Consume(IF ~On("C17") THEN {} ELSE IF ~E.ok THEN C("C17", "parameters are converted", FALSE) ELSE ParamFails)
TRecheck == IsOp("data.recheck") /\ Pass
   /\ Consume(C("C17", "earlier results stay what they were", ShownOK(<<E.obj, "params", E.res_id>>, E.res)))

Next == (TBroken /\ Pass) \/ TStart \/ TPrep \/ TSpace \/ TDirichlet \/ THDirichlet \/ TTables \/ THandler \/ TTensors \/ TTest \/ TNewTest
        \/ TUserFn \/ TSensor \/ THSensor \/ TParams \/ TRecheck \/ (Finish /\ Pass)
Spec == Init /\ [][Next]_vars
=============================================================================
