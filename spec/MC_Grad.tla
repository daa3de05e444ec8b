------------------------------- MODULE MC_Grad -------------------------------
(* The gradient of Train is the gradient of the total loss of Train: exactly   *)
(* (difference quotients of polynomials of degree four) for polynomial         *)
(* activations, to second order for smooth ones; for every model kind,         *)
(* equation, boundary factor and parameter of the catalogue.  With a wrong     *)
(* second derivative of the activation (Wrong...) it is not.                   *)
EXTENDS Train
CONSTANTS Acts, MaxSeed
VARIABLES kind, eq, act, dims, seed, idx, res
gvars == <<spaces, tables, kind, eq, act, dims, seed, idx>>
KindOf(e) == IF e \in {"poisson_inverse", "cd2d_inverse"} THEN {"inverse"} ELSE IF e = "cd2d_inverse_domain" THEN {"domain"} ELSE {"std", "hard"}
Dims(k) == IF k = "domain" THEN {<<2, 2, 2>>} ELSE {<<2, 1>>, <<2, 2, 1>>, <<2, 1, 2, 1>>}
N == NParams(dims) + (IF kind = "inverse" THEN 1 ELSE 0)
Init == /\ FInit /\ eq \in Equations /\ kind \in KindOf(eq) /\ act \in Acts /\ dims \in Dims(kind) /\ seed \in 1..MaxSeed /\ idx \in 1..N /\ res = <<>>
Num(i) == RQ(((i * 37 + seed * 61 + 13) % 23) - 11, 8)
Seq2(o, n, m) == [i \in 1..n |-> [j \in 1..m |-> Num(o + 5 * i + 3 * j)]]
T(i, j, v) == [i |-> i, j |-> j, v |-> v]
C == 2
M == 2
Q == 2
Md(h) == TLCEval([kind |-> kind, eq |-> eq, act |-> act, dims |-> dims,
   w |-> [i \in 1..NParams(dims) |-> IF i = idx THEN RAdd(Num(i), h) ELSE Num(i)], inv |-> IF idx = NParams(dims) + 1 THEN RAdd(Num(90), h) ELSE Num(90),
   hard |-> [b |-> <<T(1, 0, R1), T(1, 1, RI(-1))>>, g |-> <<T(0, 1, RI(2)), T(2, 0, RQ(1, 2))>>],
   pts |-> Seq2(1, C * Q, 2), v |-> [c \in 1..C |-> Seq2(10 * c, M, Q)], gx |-> [c \in 1..C |-> Seq2(11 * c, M, Q)], gy |-> [c \in 1..C |-> Seq2(12 * c, M, Q)],
   f |-> Seq2(40, M, C), bp |-> Seq2(50, 2, 2), bv |-> <<Num(61), Num(62)>>, sp |-> Seq2(70, 1, 2), sv |-> <<Num(81)>>])
P(md) == [eps |-> RQ(3, 2), b_x |-> RI(-2), b_y |-> RQ(1, 3), c |-> RI(3), k |-> RQ(-3, 2), inv |-> md.inv]
Loss(h) == Bind(Md(h), LAMBDA md : Evaluate(md, "real", RQ(7, 2), P(md)).tot)
Poly == act = "linear" \/ (act = "square" /\ kind # "domain" /\ Len(dims) <= 3)
H == IF Poly THEN R1 ELSE RPow2(-12)
Step == /\ res = <<>> /\ UNCHANGED gvars
        /\ res' = Bind(Md(R0), LAMBDA md : <<Evaluate(md, "real", RQ(7, 2), P(md)).grad[idx],
              RDiv(RSum(<<Loss(RMul(RI(-2), H)), RMul(RI(-8), Loss(RNeg(H))), RMul(RI(8), Loss(H)), RNeg(Loss(RMul(RI(2), H)))>>), RMul(RI(12), H)),
              Evaluate(md, "abs", RQ(7, 2), P(md)).grad[idx]>>)
Spec == Init /\ [][Step]_<<gvars, res>>
GradientOfLoss == res # <<>> => RClose(res[1], res[2], IF Poly THEN RPow2(-100) ELSE RMul(RPow2(-24), RAdd(R1, res[3])))
Bounded == res # <<>> => RLeq(RAbs(res[1]), res[3])
\* faulty variants
FlatAct(a, x) == IF a = "square" THEN <<RSq(x), RMul(RI(2), x), R0>> ELSE <<x, R1, R0>>
=============================================================================
