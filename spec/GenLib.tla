------------------------------- MODULE GenLib -------------------------------
(***************************************************************************)
(* Scenario generation.  A generator module defines Scenario(k), the k-th  *)
(* history of public calls with all their arguments; TLC evaluates it for  *)
(* k = 1..K and writes the scenarios that the drivers replay.  Arguments   *)
(* come from catalogues: Cyc walks a catalogue so that every entry is used *)
(* once per block of Len(cat) scenarios (whatever the seed), in an order   *)
(* and a combination with other catalogues that the seed decides.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLE k
Seed == atoi(IOEnv.SEED)
K == atoi(IOEnv.K)
Part == atoi(IOEnv.PART)        \* this run writes the scenarios Part+1, Part+1+Parts, ...
Parts == atoi(IOEnv.PARTS)
Focus == IOEnv.PROP
Thorough == IOEnv.TIER = "thorough"
Mix(a, b) == ((a % 30011) * 48271 + (b % 30011) * 16807 + 12345) % 30011
Hash(a, b, c) == Mix(Mix(Mix(Seed + 17, a), b * 7 + 1), c * 131 + 3)
Rnd(a, s, n) == Hash(a, s, 5) % n                       \* 0..n-1
RndIn(a, s, lo, hi) == lo + Rnd(a, s, hi - lo + 1)
RECURSIVE GCDg(_, _)
GCDg(a, b) == IF b = 0 THEN a ELSE GCDg(b, a % b)
Coprimes(n) == {c \in 1..(IF n = 1 THEN 1 ELSE n - 1) : GCDg(c, n) = 1}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})
CycIdx(n, a, s) == LET block == (a - 1) \div n  pos == (a - 1) % n
                       cs == SetSeq(Coprimes(n))
                       st == cs[(Hash(block, s, 11) % Len(cs)) + 1]
                   IN ((pos * st + Hash(block, s, 12)) % n) + 1
Cyc(cat, a, s) == cat[CycIdx(Len(cat), a, s)]
QS(n, d) == IF d = 1 THEN ToString(n) ELSE ToString(n) \o "/" \o ToString(d)   \* the number n/d
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* a permutation of 0..n-1
RECURSIVE NextCop(_, _)
NextCop(c, n) == IF GCDg(c, n) = 1 THEN c ELSE NextCop(c + 1, n)
PermG(n, a, s, i) == (NextCop(1 + (Hash(a, s, 21) % Max2(1, n - 1)), n) * i + Hash(a, s, 22)) % n
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
GenInit == k = 0
GenNext(Scen(_)) ==
   \/ /\ k = 0 /\ k' = 1
      /\ ndJsonSerialize(IOEnv.OUT, LET n == (K + Parts - 1 - Part) \div Parts IN [i \in 1..n |-> Scen(Part + 1 + (i - 1) * Parts)])
=============================================================================
