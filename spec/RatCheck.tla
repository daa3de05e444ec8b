------------------------------ MODULE RatCheck ------------------------------
(* TLC checks that the Java implementations of module Rat satisfy the        *)
(* definitions written there (on pairs of small integers) and the laws of an *)
(* ordered field; run by every check before anything else is believed.       *)
EXTENDS Rat, SequencesExt
CONSTANT B
VARIABLES n, d, m, k
Vals == -B..B
Dens == {-3, -2, 1, 2, 3, 7}
Init == n \in Vals /\ m \in Vals /\ d \in Dens /\ k \in Dens
Next == UNCHANGED <<n, d, m, k>>
vars == <<n, d, m, k>>
Spec == Init /\ [][Next]_vars
x == RQ(n, d)
y == RQ(m, k)
z == RQ(n + m, 5)
DefAdd == x (+) y = RQ(n * k + m * d, d * k)
DefMul == x (\X) y = RQ(n * m, d * k)
DefSub == x (-) y = RQ(n * k - m * d, d * k)
DefDiv == m # 0 => x (/) y = RQ(n * k, d * m)
DefLeq == RLeq(x, y) <=> (LET s == IF d * k < 0 THEN -1 ELSE 1 IN s * n * k <= s * m * d)
DefLt == RLt(x, y) <=> (RLeq(x, y) /\ x # y)
DefAbs == RAbs(x) = RQ(AbsI(n), AbsI(d)) /\ RSgn(x) = (IF n = 0 THEN 0 ELSE IF n * d > 0 THEN 1 ELSE -1)
DefFloor == RLeq(RI(RFloor(x)), x) /\ RLt(x, RI(RFloor(x) + 1))
Field == /\ x (+) (y (+) z) = (x (+) y) (+) z
         /\ x (\X) (y (+) z) = (x (\X) y) (+) (x (\X) z)
         /\ x (-) x = R0 /\ (n # 0 => x (/) x = R1)
         /\ RNeg(x) (+) x = R0
Seqs == LET u == <<x, y, z>> v == <<z, x, R1>> IN
         /\ RSum(u) = x (+) (y (+) z)
         /\ RDot(u, v) = (x (\X) z) (+) ((y (\X) x) (+) z)
         /\ VMul(u, v) = <<x (\X) z, y (\X) x, z>>
         /\ VAdd(u, v) = <<x (+) z, y (+) x, z (+) R1>>
         /\ VScale(y, u) = <<y (\X) x, y (\X) y, y (\X) z>>
         /\ PEval(u, y) = x (+) ((y (\X) y) (+) (z (\X) (y (\X) y)))
         /\ MaxAbs(u) = RMaxSeq(<<RAbs(x), RAbs(y), RAbs(z)>>)
Rounding == /\ RRound(x, 60) = IF x = RRound(x, 60) THEN x ELSE RRound(x, 60)
            /\ RLeq(RAbs(RRound(x, 40) (-) x), RAbs(x) (\X) RPow2(-40))
Closeness == /\ AllClose(<<x, <<y>>>>, <<x, <<y>>>>, R0)
             /\ ~AllClose(<<x, y>>, <<x>>, R1)
             /\ ~AllClose(<<x, "nan">>, <<x, y>>, R1)
             /\ (AllClose(<<x>>, <<y>>, RQ(1, 2)) <=> RLeq(RAbs(x (-) y), RQ(1, 2)))
             /\ (AllRel(<<x>>, <<y>>, RQ(1, 2), RQ(1, 3)) <=> RLeq(RAbs(x (-) y), (RQ(1, 2) (\X) RAbs(y)) (+) RQ(1, 3)))
             /\ ~AllRel(<<x, "nan">>, <<x, y>>, R1, R1) /\ ~AllRel(<<x, y>>, <<x>>, R1, R1)
             /\ AllRat(<<x, <<y>>>>) /\ ~AllRat(<<x, "nan">>) /\ IsRat(x) /\ ~IsRat("nan")
RECURSIVE Taylor(_, _)
Taylor(a, i) == IF i > 30 THEN R1 ELSE R1 (+) ((a (/) RI(i)) (\X) Taylor(a, i + 1))
Roots == LET a == RAbs(x) IN \A e \in {2, 3, 7} : LET r == RRoot(a, e, 60) IN
         RLeq(R0, r) /\ RLeq(RPowN(r, e), a) /\ RLeq(a, RPowN(r (\X) (R1 (+) RPow2(-60)), e))
ExpTail == LET a == RAbs(x) IN      \* partial sums from below; RatCheck's arguments are at most 20
           /\ (RLeq(a, RI(2)) => RClose(RExp(a, 60), Taylor(a, 1), RPow2(-50)))
           /\ RClose(RExp(x, 60) (\X) RExp(y, 60), RExp(x (+) y, 60), RPow2(-55) (\X) RExp(x (+) y, 60))
           /\ RExp(R0, 60) = R1 /\ (RLt(x, y) => RLt(RExp(x, 60), RExp(y, 60)))
Parse == /\ RS("0x1.8p+1") = RI(3) /\ RS("-3/4") = RQ(-3, 4) /\ RS("0.1") = RQ(1, 10) /\ RS("1e2") = RI(100)
         /\ RS("0x1.999999999999ap-4") # RQ(1, 10)
         /\ RLt(RAbs(RS("0x1.999999999999ap-4") (-) RQ(1, 10)), RPow2(-57))
         /\ RPow2(-2) = RQ(1, 4) /\ RPow2(3) = RI(8)
=============================================================================
