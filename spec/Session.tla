------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Sessions.  A session is a sequence of public calls, each made after      *)
(* seeding.  What a call gives is a function of the successful calls its    *)
(* own session has made so far (itself included): not of other sessions, of *)
(* the process, of the run, or of calls that were refused.  Whatever a      *)
(* session passed in or received stays what it was.                         *)
(***************************************************************************)
EXTENDS Sequences, FiniteSets, TLC
VARIABLES hist,     \* run -> the calls it has made with success
          memo,     \* sequence of calls -> the result of its last call, as first observed
          held      \* run -> name -> content of what the caller passed in or received
Put(f, a, b) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN b ELSE f[x]]
SInit == hist = <<>> /\ memo = <<>> /\ held = <<>>
HistOf(r) == IF r \in DOMAIN hist THEN hist[r] ELSE <<>>
HeldOf(r) == IF r \in DOMAIN held THEN held[r] ELSE <<>>
Observed(h, res) == IF h \in DOMAIN memo THEN memo ELSE Put(memo, h, res)
\* run r makes call c and observes res; same(a, b): the two results count as equal
Calls(r, c, res) == hist' = Put(hist, r, Append(HistOf(r), c)) /\ memo' = Observed(Append(HistOf(r), c), res)
\* run r makes a call that is refused
Refuses(r) == hist' = hist /\ memo' = memo
Agrees(h, res, same(_, _)) == h \in DOMAIN memo => same(memo[h], res)
\* after the call, run r holds now: all it held before, unchanged, and perhaps more
Keeps(r, now) == held' = Put(held, r, now)
Kept(r, now) == \A n \in DOMAIN HeldOf(r) : n \in DOMAIN now /\ now[n] = HeldOf(r)[n]
=============================================================================
