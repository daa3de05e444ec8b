------------------------------ MODULE MC_FEHist ------------------------------
(* Finite-element spaces as objects: every history of constructions, queries   *)
(* (valid and invalid), and writes by the caller into what a query returned.   *)
(* Alias = TRUE models handing out the table itself instead of a copy: TLC     *)
(* then finds the violation of Stable.                                         *)
EXTENDS FE
CONSTANTS Names, Accs, NCell, MaxSteps, Alias
VARIABLES copies,    \* arrays in the caller's hands: sequence of [key, val]
          last,      \* last answer: [key, val] or refusal
          steps
hvars == <<spaces, tables, copies, last, steps>>
\* what a space computes for a query: any injective function of the query
Truth(key) == key
Mem == [k \in DOMAIN tables |-> tables[k]]
Init == FInit /\ copies = <<>> /\ last = [ok |-> FALSE, key |-> <<>>, val |-> <<>>] /\ steps = 0
DoNew == \E o \in Names : o \notin DOMAIN spaces /\ NewSpace(o, [cells |-> [c \in 1..NCell |-> c]]) /\ UNCHANGED <<copies, last>>
DoGet == \E o \in DOMAIN spaces, a \in Accs, c \in -1..NCell :
   LET key == <<o, a, c, 0>> IN
   IF InRange(o, c)
   THEN /\ Get(key, Truth(key))
        /\ last' = [ok |-> TRUE, key |-> key, val |-> IF key \in DOMAIN tables THEN tables[key] ELSE Truth(key)]
        /\ copies' = Append(copies, [key |-> key, val |-> last'.val])
   ELSE Refuse /\ last' = [ok |-> FALSE, key |-> key, val |-> <<>>] /\ UNCHANGED copies
DoWrite == \E i \in DOMAIN copies :
   /\ copies' = [copies EXCEPT ![i].val = <<"scribble">>]
   /\ tables' = IF Alias THEN [tables EXCEPT ![copies[i].key] = <<"scribble">>] ELSE tables
   /\ UNCHANGED <<spaces, last>>
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (DoNew \/ DoGet \/ DoWrite)
Spec == Init /\ [][Next]_hvars
Stable == last.ok => last.val = Truth(last.key)
Refused == ~last.ok /\ last.key # <<>> => ~InRange(last.key[1], last.key[3])
OnlyValid == \A k \in DOMAIN tables : InRange(k[1], k[3])
NeverChanges == [][\A k \in DOMAIN tables : k \in DOMAIN tables' /\ tables'[k] = tables[k]]_hvars
=============================================================================
