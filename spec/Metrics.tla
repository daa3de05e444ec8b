------------------------------ MODULE Metrics ------------------------------
(* Distances between a reference and an approximation (utils/compute_utils).   *)
EXTENDS Rat
Diffs(u, v) == TLCEval([i \in 1..Len(u) |-> RAbs(RSub(u[i], v[i]))])
Sizes(u) == TLCEval([i \in 1..Len(u) |-> RAbs(u[i])])
\* the two means and the maximum of a sequence of sizes
Mean1(d) == RDiv(RSum(d), RI(Len(d)))
Mean2(d) == RDiv(RDot(d, d), RI(Len(d)))          \* the square of the root-mean-square
Peak(d) == MaxAbs(d)
Rms(d) == RRoot(Mean2(d), 2, 120)
L1(u, v) == Mean1(Diffs(u, v))
L2(u, v) == Rms(Diffs(u, v))
Linf(u, v) == Peak(Diffs(u, v))
L1Rel(u, v) == RDiv(L1(u, v), Mean1(Sizes(u)))
L2Rel(u, v) == RDiv(L2(u, v), Rms(Sizes(u)))
LinfRel(u, v) == RDiv(Linf(u, v), Peak(Sizes(u)))
Metric(f, u, v) == CASE f = "l1" -> L1(u, v) [] f = "l2" -> L2(u, v) [] f = "linf" -> Linf(u, v)
   [] f = "l1r" -> L1Rel(u, v) [] f = "l2r" -> L2Rel(u, v) [] f = "linfr" -> LinfRel(u, v)
\* the combined report, in its documented order
Combined == <<"l2", "linf", "l2r", "linfr", "l1", "l1r">>
=============================================================================
