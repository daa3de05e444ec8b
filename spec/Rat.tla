-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic.                                              *)
(*                                                                         *)
(* The definitions below give the meaning: a rational is a pair            *)
(* <<numerator, positive denominator>> in lowest terms.  TLC integers have *)
(* 32 bits, so for model checking and for trace validation the operators   *)
(* are overridden by java/fv/RatOps.java, which computes the same          *)
(* functions with unbounded integers; RatCheck.tla makes TLC check that    *)
(* the overrides satisfy these definitions and the field laws.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE GCDr(_, _)
GCDr(a, b) == IF b = 0 THEN a ELSE GCDr(b, a % b)
AbsI(n) == IF n < 0 THEN -n ELSE n
Norm(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                  g == GCDr(AbsI(n), AbsI(d))
              IN  <<(s * n) \div g, (s * d) \div g>>

RI(n) == <<n, 1>>                       \* integer -> rational
RQ(n, d) == Norm(n, d)                  \* n/d for integers n, d # 0
RS(s) == CHOOSE x : TRUE                \* the number a string denotes (Java only)
RPow2(k) == IF k >= 0 THEN <<2^k, 1>> ELSE <<1, 2^(-k)>>
IsRat(x) == DOMAIN x = 1..2             \* Java: "is a rational value", total
RAdd(a, b) == Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == Norm(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == Norm(a[1] * b[2], a[2] * b[1])
RAbs(a) == <<AbsI(a[1]), a[2]>>
RSgn(a) == IF a[1] < 0 THEN -1 ELSE IF a[1] = 0 THEN 0 ELSE 1
RLeq(a, b) == a[1] * b[2] <= b[1] * a[2]
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RFloor(a) == a[1] \div a[2]
\* nearest number with `bits' significant bits; the definition only says that
\* the relative change is at most 2^-bits (it bounds the size of long products)
RRound(a, bits) == CHOOSE x \in {a} : TRUE

\* lower approximation of the k-th root of a >= 0, relative error below 2^-bits
RRoot(a, k, bits) == CHOOSE x \in {a} : TRUE
\* e^a, relative error below 2^-bits (|a| <= 200)
RExp(a, bits) == CHOOSE x \in {a} : TRUE

RECURSIVE RSum(_)
RSum(u) == IF u = <<>> THEN RI(0) ELSE RAdd(Head(u), RSum(Tail(u)))
RDot(u, v) == RSum([i \in 1..Len(u) |-> RMul(u[i], v[i])])
VMul(u, v) == [i \in 1..Len(u) |-> RMul(u[i], v[i])]
VAdd(u, v) == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
VScale(k, u) == [i \in 1..Len(u) |-> RMul(k, u[i])]
VRound(u, bits) == [i \in 1..Len(u) |-> RRound(u[i], bits)]
RECURSIVE PEval(_, _)                   \* polynomial, coefficients upwards
PEval(p, x) == IF p = <<>> THEN RI(0) ELSE RAdd(Head(p), RMul(x, PEval(Tail(p), x)))

\* nested sequences of numbers, compared entry by entry; total: FALSE when the
\* shapes differ or an entry is not a number (nan, inf, missing)
AllClose(u, v, tol) == CHOOSE b \in BOOLEAN : TRUE
AllRel(u, v, rel, abs) == CHOOSE b \in BOOLEAN : TRUE  \* every entry of u within rel*|entry of v| + abs
AllRat(u) == CHOOSE b \in BOOLEAN : TRUE        \* all leaves are numbers
IsArr(u, dims) == CHOOSE b \in BOOLEAN : TRUE    \* u is a nested sequence of numbers with these extents
MaxAbs(u) == CHOOSE x : TRUE                    \* largest absolute leaf
RFloat(a) == CHOOSE s \in STRING : TRUE         \* decimal rendering, for reports
LoadTrace(file) == CHOOSE s : TRUE              \* ndjson file -> sequence of records

a (+) b == RAdd(a, b)
a (-) b == RSub(a, b)
a (\X) b == RMul(a, b)
a (/) b == RDiv(a, b)
RMax2(a, b) == IF RLeq(a, b) THEN b ELSE a
RMin2(a, b) == IF RLeq(a, b) THEN a ELSE b
R0 == RI(0)
R1 == RI(1)
RSq(a) == RMul(a, a)
RClose(a, b, tol) == IsRat(a) /\ IsRat(b) /\ RLeq(RAbs(RSub(a, b)), tol)
RECURSIVE RPowN(_, _)
RPowN(a, k) == IF k = 0 THEN R1 ELSE RMul(a, RPowN(a, k - 1))
RECURSIVE RMaxSeq(_)
RMaxSeq(u) == IF Len(u) = 1 THEN u[1] ELSE RMax2(Head(u), RMaxSeq(Tail(u)))
RECURSIVE RMinSeq(_)
RMinSeq(u) == IF Len(u) = 1 THEN u[1] ELSE RMin2(Head(u), RMinSeq(Tail(u)))
\* F applied to the value of e, which is computed once
Bind(e, F(_)) == CHOOSE r \in {F(v) : v \in {TLCEval(e)}} : TRUE
=============================================================================
