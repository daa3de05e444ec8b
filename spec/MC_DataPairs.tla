---------------------------- MODULE MC_DataPairs ----------------------------
(* The pairing loop of the Dirichlet data for every boundary dictionary over   *)
(* small sets of tags, points and functions, and the layout of the training    *)
(* tensors (rows c*Q+q) for every small number of cells, functions and points. *)
(* Late = TRUE pairs all points with the function of the last tag (a closure   *)
(* bound too late); TLC refutes it.                                            *)
EXTENDS Data
CONSTANTS TagSet, PtSet, MaxTags, MaxPts, MaxC, MaxQ, Late
VARIABLES b, i, k, out, C, Q
pvars == <<spaces, tables, handlers, shown, b, i, k, out, C, Q>>
Ins(s, x) == Append(s, x)
\* the function of tag t is written <<"f", t>>; its value at p is <<"f", t, p>>
PtLists == UNION {[1..n -> PtSet] : n \in 0..MaxPts}
TagLists == {s \in UNION {[1..n -> TagSet] : n \in 1..MaxTags} : \A x, y \in DOMAIN s : x # y => s[x] # s[y]}
Init == /\ DInit /\ i = 1 /\ k = 1 /\ out = <<>> /\ C \in 1..MaxC /\ Q \in 1..MaxQ
        /\ \E ts \in TagLists : \E ps \in [1..Len(ts) -> PtLists] :
              b = [j \in 1..Len(ts) |-> [tag |-> ts[j], pts |-> ps[j], f |-> <<"f", ts[j]>>]]
FnAt(j) == IF Late THEN b[Len(b)].f ELSE b[j].f
Step == /\ i <= Len(b)
        /\ IF k <= Len(b[i].pts) THEN out' = Append(out, [p |-> b[i].pts[k], f |-> FnAt(i)]) /\ k' = k + 1 /\ i' = i
           ELSE out' = out /\ k' = 1 /\ i' = i + 1
        /\ UNCHANGED <<spaces, tables, handlers, shown, b, C, Q>>
Spec == Init /\ [][Step]_pvars /\ WF_pvars(Step)
Done == i > Len(b)
Paired == Done => out = DirichletPairs(b)
Prefix == Len(out) <= Len(DirichletPairs(b)) /\ (~Late => \A n \in 1..Len(out) : out[n] = DirichletPairs(b)[n])
Once == Done => \A j \in 1..Len(b) : \A p \in PtSet :
          Cardinality({n \in 1..Len(out) : out[n].f = b[j].f /\ out[n].p = p}) = Cardinality({n \in 1..Len(b[j].pts) : b[j].pts[n] = p})
Terminates == <>Done
\* tensors: abstract tables whose entries name their own position
Tab == [c \in 1..C |-> [pts |-> [q \in 1..Q |-> <<c, q>>], val |-> [m \in 1..2 |-> [q \in 1..Q |-> <<c, m, q>>]], force |-> [m \in 1..3 |-> << <<m, c>> >>]]]
Layout == /\ \A c \in 1..C, q \in 1..Q : CoordTensor(Tab)[(c - 1) * Q + q] = <<c, q>>
          /\ Len(CoordTensor(Tab)) = C * Q
          /\ \A c \in 1..C, m \in 1..2, q \in 1..Q : CellTensor(Tab, "val")[c][m][q] = <<c, m, q>>
          /\ \A c \in 1..C, m \in 1..3 : ForceMatrix(Tab)[m][c] = <<m, c>>
=============================================================================
