--------------------------------- MODULE Fn ---------------------------------
(* Functions of (x, y) given as data (see driver/fn.py).                      *)
EXTENDS Rat
\* polynomial: sequence of terms [i, j, v] meaning v x^i y^j
PolyTerm(t, p) == RMul(t.v, RMul(RPowN(p[1], t.i), RPowN(p[2], t.j)))
Lin(f, p) == RAdd(RAdd(RMul(f.abc[1], p[1]), RMul(f.abc[2], p[2])), f.abc[3])
LinAbs(f, p) == RAdd(RAdd(RAbs(RMul(f.abc[1], p[1])), RAbs(RMul(f.abc[2], p[2]))), RAbs(f.abc[3]))
FnEval(f, p) ==
   CASE f.kind = "poly" -> RSum([k \in 1..Len(f.c) |-> PolyTerm(f.c[k], p)])
     [] f.kind = "abs"  -> RAbs(Lin(f, p))
     [] f.kind = "ramp" -> RMax2(R0, Lin(f, p))
     [] f.kind = "top" -> RMaxSeq(<<RMul(f.abc[1], p[1]), RMul(f.abc[2], p[2]), f.abc[3]>>)
     [] f.kind = "bump" -> RMax2(R0, RSub(R1, RSq(Lin(f, p))))
     [] f.kind = "step" -> IF RSgn(Lin(f, p)) >= 0 THEN R1 ELSE RI(-2)
FnExact(f) == f.kind \in {"poly", "abs", "step", "ramp", "bump", "top"}
\* sum of the absolute values of the terms: bounds the rounding of an evaluation
FnScale(f, p) ==
   CASE f.kind = "poly" -> RSum([k \in 1..Len(f.c) |-> RAbs(PolyTerm(f.c[k], p))])
     [] f.kind \in {"abs", "ramp", "top"} -> LinAbs(f, p)
     [] f.kind = "bump" -> RAdd(R1, RSq(LinAbs(f, p)))
     [] OTHER -> RI(2)
\* bounds the change of the value when a coordinate changes
FnSlope(f, p) ==
   CASE f.kind = "poly" -> RSum([k \in 1..Len(f.c) |-> LET t == f.c[k] IN
          RAdd(IF t.i = 0 THEN R0 ELSE RAbs(RMul(RI(t.i), RMul(t.v, RMul(RPowN(p[1], t.i - 1), RPowN(p[2], t.j))))),
               IF t.j = 0 THEN R0 ELSE RAbs(RMul(RI(t.j), RMul(t.v, RMul(RPowN(p[1], t.i), RPowN(p[2], t.j - 1))))))])
     \* (the slope of a bump is at most twice that of its linear part, inside its support)
     [] OTHER -> RMul(RI(2), RAdd(RAbs(f.abc[1]), RAbs(f.abc[2])))
\* partial derivatives of a polynomial
PolyDx(c) == LET s == SelectSeq(c, LAMBDA t : t.i > 0) IN [k \in 1..Len(s) |-> [i |-> s[k].i - 1, j |-> s[k].j, v |-> RMul(RI(s[k].i), s[k].v)]]
PolyDy(c) == LET s == SelectSeq(c, LAMBDA t : t.j > 0) IN [k \in 1..Len(s) |-> [i |-> s[k].i, j |-> s[k].j - 1, v |-> RMul(RI(s[k].j), s[k].v)]]
PolyEval(c, p) == RSum([k \in 1..Len(c) |-> PolyTerm(c[k], p)])
=============================================================================
