----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Common part of the trace specifications.  A trace is the ndjson record  *)
(* of the public calls a driver made on the real code, with arguments and  *)
(* results.  Every trace specification consumes one event per step with an *)
(* action of the area's specification; where the observed result is not    *)
(* one the specification allows, the violated clauses are recorded and the *)
(* rest of the trace is still checked.  Verdict: all events consumed and   *)
(* no clause recorded.                                                     *)
(***************************************************************************)
EXTENDS Rat, Json, IOUtils
VARIABLES l,      \* next event
          bad     \* violated clauses so far
Trace == LoadTrace(IOEnv.TRACE)
Prop == IOEnv.PROP
On(p) == Prop = p \/ Prop = "ALL"
E == Trace[l]
Broken == l <= Len(Trace) /\ "broken" \in DOMAIN Trace[l]   \* a result that could not even be recorded
IsOp(op) == l <= Len(Trace) /\ ~Broken /\ Trace[l].op = op
\* one clause of property p (cond is only evaluated for the property being checked)
C(p, name, cond) == IF On(p) THEN (IF cond THEN {} ELSE {<<p, name>>}) ELSE {}
\* clauses are only evaluated if the preceding ones of the same event hold
Then(first0, rest) == LET first == TLCEval(first0) IN IF first = {} THEN rest ELSE first
MaxBad == 60
RECURSIVE SetToSeqB(_)
SetToSeqB(S0) == LET S == TLCEval(S0) IN IF S = {} THEN <<>> ELSE LET x == TLCEval(CHOOSE x \in S : TRUE) IN <<x>> \o SetToSeqB(S \ {x})
Consume(fails0) == LET fails == TLCEval(fails0) IN
   /\ l' = l + 1
   /\ bad' = IF Len(bad) >= MaxBad THEN bad
             ELSE LET s == TLCEval(SetToSeqB(fails)) IN bad \o TLCEval([i \in 1..Len(s) |->
                    [line |-> l, sid |-> Trace[l].sid, op |-> Trace[l].op, prop |-> s[i][1], clause |-> s[i][2]]])
TBroken == Broken /\ Consume({<<Prop, "the call's result has the documented structure">>})
BInit == l = 1 /\ bad = <<>>
Finish == /\ l = Len(Trace) + 1
          /\ l' = l + 1
          /\ JsonSerialize(IOEnv.OUT, [events |-> Len(Trace), bad |-> bad])
          /\ UNCHANGED bad
TraceAccepted == TLCGet("stats").diameter - 2 = Len(Trace)
Tol(scale, k) == RMul(RAdd(scale, RPow2(-900)), RPow2(-k))     \* scale * 2^-k
=============================================================================
