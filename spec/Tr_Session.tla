------------------------------ MODULE Tr_Session ------------------------------
(* Binds Session to recorded sessions, interleaved in one process or alone in *)
(* a process of their own (C28), while the caller keeps all it passes in and   *)
(* receives (C29), and with refused calls in between (C30).                    *)
EXTENDS Session, TraceBase
vars == <<hist, memo, held, l, bad>>
View == <<l>>
Init == SInit /\ BInit
Pass == UNCHANGED <<hist, memo, held>>
TStart == IsOp("start") /\ hist' = <<>> /\ memo' = <<>> /\ held' = <<>> /\ Consume({})
Result(e) == [ok |-> e.ok, res |-> e.res, num |-> e.num]
MaxMag(a) == LET m[i \in 0..Len(a)] == IF i = 0 THEN R0 ELSE IF IsRat(a[i]) THEN RMax2(m[i - 1], RAbs(a[i])) ELSE m[i - 1] IN m[Len(a)]
\* numbers may differ by the rounding of sums taken in another order
NumSame(a, b) == a = b \/ (Len(a) = Len(b) /\ LET s == TLCEval(RMul(MaxMag(a), RPow2(-14))) IN \A i \in 1..Len(a) : a[i] = b[i] \/ RClose(a[i], b[i], s))
Same(p, q) == p.ok = q.ok /\ p.res = q.res /\ DOMAIN p.num = DOMAIN q.num /\ \A n \in DOMAIN p.num : NumSame(p.num[n], q.num[n])
Succeeds(e) == C(Prop, "the call succeeds", e.ok)
\* what the run holds after the call, and a digest of what every other run held after its own last call
HeldFails == IF ~On("C29") \/ "held" \notin DOMAIN E THEN {} ELSE
   C("C29", "what the call is given and gives is not changed by the rest of the call", \A n \in DOMAIN E.got : n \in DOMAIN E.held /\ E.held[n] = E.got[n])
   \cup C("C29", "what the session passed in or received before is unchanged", Kept(E.run, E.held @@ [digest |-> IF E.run \in DOMAIN held THEN held[E.run]["digest"] ELSE ""]))
   \cup C("C29", "what other sessions hold is unchanged", \A r \in DOMAIN E.others : r = E.run \/ (r \in DOMAIN held /\ held[r]["digest"] = E.others[r]))
Holding == IF "held" \in DOMAIN E THEN held' = Put(held, E.run, [n \in DOMAIN E.held \cup {"digest"} |-> IF n = "digest" THEN E.others[E.run] ELSE E.held[n]]) ELSE held' = held
\* a call that has to be refused; one that is accepted all the same counts as a call (whether it is refused is C23)
TRefused == IsOp("ses.call") /\ E.refused /\ (IF E.ok THEN Calls(E.run, E.call, Result(E)) ELSE Refuses(E.run)) /\ Holding /\ Consume(HeldFails)
TCall == IsOp("ses.call") /\ ~E.refused /\ Holding /\ Calls(E.run, E.call, Result(E))
   /\ Consume(Succeeds(E) \cup HeldFails
            \cup (IF ~On("C30") THEN {} ELSE C("C30", "the result is that of the successful calls alone", Agrees(Append(HistOf(E.run), E.call), Result(E), Same)))
            \cup (IF ~On("C28") THEN {} ELSE C("C28", "the result is that of the same calls in any other run", Agrees(Append(HistOf(E.run), E.call), Result(E), Same))))
Prefix(cs, i) == [j \in 1..i |-> cs[j].call]
TProcess == IsOp("ses.process") /\ E.ok /\ hist' = hist /\ held' = held
   /\ LET cs == E.calls  hs == TLCEval([i \in 1..Len(cs) |-> Prefix(cs, i)]) IN
      /\ memo' = TLCEval([h \in DOMAIN memo \cup {hs[i] : i \in 1..Len(hs)} |-> IF h \in DOMAIN memo THEN memo[h] ELSE Result(cs[Len(h)])])
      /\ Consume(UNION {Succeeds(cs[i]) \cup C("C28", "a process of its own gives the same result", Agrees(hs[i], Result(cs[i]), Same)) : i \in 1..Len(cs)})
TFail == IsOp("ses.process") /\ ~E.ok /\ Pass /\ Consume(C("C28", "the session runs in a process of its own", FALSE))
Next == (TBroken /\ Pass) \/ TStart \/ TRefused \/ TCall \/ TProcess \/ TFail \/ (Finish /\ Pass)
Spec == Init /\ [][Next]_vars
=============================================================================
