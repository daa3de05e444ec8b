-------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* Specification of the data layer: Dirichlet data, training tensors,      *)
(* sensor data and parameter dictionaries, handed out in a requested       *)
(* floating-point type by handlers that live on finite-element spaces.      *)
(***************************************************************************)
EXTENDS FE

RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))
(*--------------------------- Dirichlet data -------------------------------*)
\* b: boundary dictionary in its order, a sequence of [tag, pts, f] with f one function per component
DirichletPairs(b) == FlatSeq([i \in 1..Len(b) |-> [k \in 1..Len(b[i].pts) |-> [p |-> b[i].pts[k], f |-> b[i].f]]])
DirichletPoints(b) == LET d == DirichletPairs(b) IN [k \in 1..Len(d) |-> d[k].p]
DirichletValues(b, comp) == LET d == DirichletPairs(b) IN [k \in 1..Len(d) |-> FnEval(d[k].f[comp], d[k].p)]
DirichletScale(b, comp) == LET d == DirichletPairs(b) IN [k \in 1..Len(d) |-> FnScale(d[k].f[comp], d[k].p)]

(*--------------------------- training tensors -----------------------------*)
\* T: tables of the space, per cell [pts, val, gx, gy, force]
Rows(T) == Len(T) * Len(T[1].pts)
CoordTensor(T) == LET Q == Len(T[1].pts) IN [r \in 1..Rows(T) |-> T[((r - 1) \div Q) + 1].pts[((r - 1) % Q) + 1]]
CellTensor(T, acc) == [c \in 1..Len(T) |-> T[c][acc]]
ForceMatrix(T) == [k \in 1..Len(T[1].force) |-> [c \in 1..Len(T) |-> T[c].force[k][1]]]

(*------------------------------ sensors -----------------------------------*)
\* parameters ts (in any order) form a Latin-hypercube sample: one in each of n equal pieces
Spread(ts, n, tol) == LET s == SortSeq(ts, RLt) IN
   Len(ts) = n /\ \A i \in 1..n : /\ RLeq(RSub(RQ(i - 1, n), tol), s[i]) /\ RLeq(s[i], RAdd(RQ(i, n), tol))

(*--------------------------- precisions -----------------------------------*)
DTypes == {"float32", "float64"}
Unit(dtype) == IF dtype = "float32" THEN RPow2(-23) ELSE RPow2(-46)
Tiny(dtype) == IF dtype = "float32" THEN RPow2(-120) ELSE RPow2(-1000)
Converted(u, v, dtype) == AllRel(u, v, Unit(dtype), Tiny(dtype))

(***************************************************************************)
(* Objects: spaces (of module FE), handlers on them, user dictionaries and  *)
(* the results of conversions, which stay what they were.                   *)
(***************************************************************************)
VARIABLES handlers,   \* name -> [space, dtype, domain]
          shown       \* what a handler or a conversion has shown: key -> value
dvars == <<spaces, tables, handlers, shown>>
DInit == FInit /\ handlers = <<>> /\ shown = <<>>
MakeSpace(o, rec) == NewSpace(o, rec) /\ UNCHANGED <<handlers, shown>>
MakeHandler(h, rec) == /\ rec.space \in DOMAIN spaces /\ rec.dtype \in DTypes
                       /\ handlers' = FPut(handlers, h, rec)
                       /\ shown' = [k \in {q \in DOMAIN shown : q[1] # h} |-> shown[k]]
                       /\ UNCHANGED fvars
Show(key, v) == /\ shown' = FPut(shown, key, v) /\ UNCHANGED <<spaces, tables, handlers>>
ShownOK(key, v) == key \in DOMAIN shown => shown[key] = v
=============================================================================
