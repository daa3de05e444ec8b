------------------------------ MODULE MC_Config ------------------------------
(* A user builds geometry, cells, space, handler and model one after the other, *)
(* with any supported or unsupported value of every option.  Objects exist only *)
(* if they and everything they are made of were asked for with supported        *)
(* values, and every product of supported values reaches a model.  In the       *)
(* faulty variants one call overlooks an option or refuses a supported value.   *)
EXTENDS Config
CONSTANTS Bad, Overlook, Deny
VARIABLES objs,     \* call -> options it was built with
          refused   \* last refused request
vars == <<objs, refused>>
Stages == <<"geometry", "read", "space", "handler", "model">>
Values(o) == CASE o = "order" -> {1, 2, 999, 1000} [] o = "qorder" -> {2, 3} [] o = "basis" -> {"legendre", "jacobi_plain", Bad} [] OTHER -> Supported(o) \cup {Bad}
Next1 == Len(Stages) > Cardinality(DOMAIN objs)
Stage == Stages[Cardinality(DOMAIN objs) + 1]
Check(call, opts) == (\A o \in Examined[call] \ {Overlook} : Good(o, opts[o])) /\ (\A o \in Examined[call] \ DOMAIN Ranges : opts[o] # Deny)
RECURSIVE Assignments(_)
Assignments(os) == IF os = {} THEN {<<>>} ELSE LET o == CHOOSE x \in os : TRUE IN {(o :> v) @@ f : v \in Values(o), f \in Assignments(os \ {o})}
Init == objs = <<>> /\ refused = <<>>
Build == Next1 /\ \E opts \in Assignments(Examined[Stage]) :
   IF Check(Stage, opts) THEN objs' = (Stage :> opts) @@ objs /\ refused' = <<>>
   ELSE refused' = <<[call |-> Stage, opts |-> opts]>> /\ UNCHANGED objs
Spec == Init /\ [][Build]_vars
Sound == \A c \in DOMAIN objs : Accepts(c, objs[c])
Complete == refused = <<>> \/ ~Accepts(refused[1].call, refused[1].opts)
=============================================================================
