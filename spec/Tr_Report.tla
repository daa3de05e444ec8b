----------------------------- MODULE Tr_Report -----------------------------
(* Binds Metrics and Files to recorded calls (C24, C25).                        *)
EXTENDS Metrics, Files, TraceBase
VARIABLE data      \* object -> pair of arrays
vars == <<files, data, l, bad>>
View == <<l>>
Init == FilesInit /\ data = <<>> /\ BInit
Pass == UNCHANGED <<files, data>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
TStart == IsOp("start") /\ files' = <<>> /\ data' = <<>> /\ Consume({})
(*-------------------------------- C24 -------------------------------------*)
TArrays == IsOp("rep.arrays") /\ data' = Put(data, E.obj, TLCEval([u |-> E.u, v |-> E.v, dtype |-> E.dtype])) /\ UNCHANGED files /\ Consume({})
Rel(dtype) == IF dtype \in {"float32", "mixed"} THEN RPow2(-15) ELSE RPow2(-40)
Near(a, b, dtype) == RClose(a, b, RMul(Rel(dtype), b))
MetricFails(d, f, swap, r) == LET fs == IF f = "all" THEN Combined ELSE <<f>> IN
   Bind(IF swap THEN <<d.v, d.u>> ELSE <<d.u, d.v>>, LAMBDA p :
   Then(C("C24", "the combined report has six numbers, a single metric one", IsArr(r, <<Len(fs)>>)),
        C("C24", "each number is the mean, root-mean-square or maximum of the differences (relative to that of the reference)",
          \A i \in 1..Len(fs) : Bind(Metric(fs[i], p[1], p[2]), LAMBDA w : Near(r[i], w, d.dtype)))
        \cup C("C24", "never negative, and zero exactly when both arrays agree", \A i \in 1..Len(r) : IsRat(r[i]) /\ RLeq(R0, r[i]) /\ (r[i] = R0 <=> p[1] = p[2]))))
TMetric == IsOp("rep.metric") /\ Pass
   /\ Consume(IF E.skip THEN {} ELSE IF ~E.ok THEN C("C24", "the errors are computed", FALSE) ELSE
      C("C24", "the arrays are not changed", E.same) \cup C("C24", "errors are scalars", E.sh)
      \cup MetricFails(data[E.obj], E.f, E.swap, E.r))
(*-------------------------------- C25 -------------------------------------*)
ToFiles(ls) == TLCEval([q \in {ls[i].f : i \in 1..Len(ls)} |-> (ls[CHOOSE i \in 1..Len(ls) : ls[i].f = q]).h])
TUserFile == /\ l <= Len(Trace) /\ ~Broken /\ Trace[l].op \in {"rep.userfile", "rep.meshfile"}
             /\ files' = ToFiles(Trace[l].after) /\ UNCHANGED data /\ Consume({})
CallOf(ev) == [helper |-> ev.helper, dir |-> ev.dir, name |-> ev.name, prefix |-> ev.prefix, epoch |-> ev.epoch, optimized |-> ev.optimized]
Fresh(ls, c) == \A n \in Names(c) : \E i \in 1..Len(ls) : ls[i].f = Join(c.dir, n) /\ ls[i].new /\ ls[i].k = Format(c, n)
TCall == IsOp("rep.call") /\ UNCHANGED data /\ files' = ToFiles(E.after)
   /\ LET c == CallOf(E) b == ToFiles(E.before) a == ToFiles(E.after) IN
      Consume(C("C25", "nothing is written between the calls", b = files)
       \cup (IF ~E.ok THEN C("C25", "the helper succeeds", FALSE) ELSE
         C("C25", "the result is written under the documented name in the requested folder", Targets(c) \subseteq DOMAIN a /\ Fresh(E.after, c))
         \cup C("C25", "nothing else is written, removed or changed", Targets(c) \subseteq DOMAIN a => Allowed(b, a, Targets(c))))
       \cup C("C25", "the data passed in are not changed", E.d0 = E.d1))
Next == (TBroken /\ Pass) \/ TStart \/ TArrays \/ TMetric \/ TUserFile \/ TCall \/ (Finish /\ Pass)
Spec == Init /\ [][Next]_vars
=============================================================================
