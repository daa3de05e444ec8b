----------------------------- MODULE MC_Metrics -----------------------------
(* The laws users rely on, for all pairs of small vectors.                     *)
(* MC_Metrics_signed replaces the sizes of the differences by the signed ones: *)
(* TLC finds two different vectors at distance 0.                              *)
EXTENDS Metrics
CONSTANTS N, Vals
VARIABLES u, v, w
vars == <<u, v, w>>
Vec(n) == [1..n -> {RI(x - 2) : x \in Vals}]
Init == \E n \in 1..N : u \in Vec(n) /\ v \in Vec(n) /\ w \in (IF n <= 2 THEN Vec(n) ELSE {v})
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Signed(a, b) == TLCEval([i \in 1..Len(a) |-> RSub(a[i], b[i])])
D == Diffs(u, v)
\* all three distances of a pair (the root-mean-square by its square)
M1 == Mean1(Diffs(u, v))
M2 == Mean2(Diffs(u, v))
MP == Peak(Diffs(u, v))
NonNegative == RLeq(R0, M1) /\ RLeq(R0, M2) /\ RLeq(R0, MP)
ZeroIffEqual == (M1 = R0 <=> u = v) /\ (M2 = R0 <=> u = v) /\ (MP = R0 <=> u = v)
Symmetric == Mean1(Diffs(v, u)) = M1 /\ Mean2(Diffs(v, u)) = M2 /\ Peak(Diffs(v, u)) = MP
Ordered == RLeq(RSq(M1), M2) /\ RLeq(M2, RSq(MP))
Shuffle(s, p) == [i \in 1..Len(s) |-> s[p[i]]]
AnyOrder == \A p \in {q \in [1..Len(u) -> 1..Len(u)] : \A i, j \in 1..Len(u) : q[i] = q[j] => i = j} :
   Bind(Diffs(Shuffle(u, p), Shuffle(v, p)), LAMBDA d : Mean1(d) = M1 /\ Mean2(d) = M2 /\ Peak(d) = MP)
Triangle == RLeq(M1, RAdd(Mean1(Diffs(u, w)), Mean1(Diffs(w, v)))) /\ RLeq(MP, RAdd(Peak(Diffs(u, w)), Peak(Diffs(w, v))))
\* relative distances do not depend on the unit
NonZero == \E i \in 1..Len(u) : u[i] # R0
Tripled(s) == [i \in 1..Len(s) |-> RMul(RI(-3), s[i])]
UnitFree == NonZero => (L1Rel(Tripled(u), Tripled(v)) = L1Rel(u, v) /\ LinfRel(Tripled(u), Tripled(v)) = LinfRel(u, v)
                        /\ RClose(L2Rel(Tripled(u), Tripled(v)), L2Rel(u, v), RPow2(-100)))
RootOfMean == RClose(RSq(L2(u, v)), M2, RMul(M2, RPow2(-100)))
=============================================================================
