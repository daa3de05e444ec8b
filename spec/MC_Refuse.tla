------------------------------ MODULE MC_Refuse ------------------------------
(* Refused calls leave no trace: an object with two settings that must be in   *)
(* increasing order; what it answers must be a function of the calls that      *)
(* succeeded.  The implementation checks                                       *)
(*   "first"  before it assigns anything                                       *)
(*   "early"  after it has assigned the first setting                          *)
(*   "count"  before assigning, but counts the call                            *)
EXTENDS Session, Integers
CONSTANTS Values, MaxCalls, Mode
VARIABLES x, y, n
mvars == <<hist, memo, held, x, y, n>>
Init == SInit /\ x = 0 /\ y = 1 /\ n = 0
Room == n < MaxCalls
Set(a, b) == Room /\ n' = n + (IF a < b \/ Mode = "count" THEN 1 ELSE 0) /\
   IF a < b THEN x' = a /\ y' = b /\ Calls("r", <<"set", a, b>>, "done")
   ELSE x' = (IF Mode = "early" THEN a ELSE x) /\ y' = y /\ Refuses("r")
Ask == Room /\ n' = n + 1 /\ UNCHANGED <<x, y>> /\ Calls("r", <<"ask">>, <<x, y, n>>)
Next == held' = held /\ ((\E a, b \in Values : Set(a, b)) \/ Ask)
Spec == Init /\ [][Next]_mvars
\* the answer the successful calls alone lead to
RECURSIVE Settings(_)
Settings(h) == IF h = <<>> THEN <<0, 1>> ELSE LET c == h[Len(h)] IN IF c[1] = "set" THEN <<c[2], c[3]>> ELSE Settings(SubSeq(h, 1, Len(h) - 1))
NoTrace == <<x, y>> = Settings(HistOf("r")) /\ n = Len(HistOf("r"))
=============================================================================
