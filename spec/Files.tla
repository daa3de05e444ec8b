------------------------------- MODULE Files -------------------------------
(* The output folders as state: path -> content.  Every plotting or export     *)
(* helper writes exactly the documented files under the folder it is given     *)
(* and touches nothing else.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES files      \* path -> content (an abstract digest)
FilesInit == files = <<>>
\* documented names of one call c = [helper, dir, name, prefix, epoch]
Names(c) ==
   CASE c.helper = "loss" -> {"loss_function.png"}
     [] c.helper \in {"array", "multiple", "contour"} -> {c.name \o ".png"}
     [] c.helper = "inverse_test" -> {"test_inverse_loss_function.png"}
     [] c.helper = "test" -> {IF c.prefix = "" THEN "test_loss_function.png" ELSE c.prefix \o "_test_loss_function.png"}
     [] c.helper = "test_time" -> {"test_time_loss_function.png"}
     [] c.helper = "inverse_param" -> {c.name \o ".png", c.name \o "_absolute_error.png"}
     [] c.helper = "residual" -> {c.name \o "_" \o ToString(c.epoch) \o ".png"}
     [] c.helper \in {"mesh", "mesh_at_construction"} -> {"mesh.png", "mesh.svg"}
     [] c.helper = "internal_mesh" -> IF c.optimized THEN {} ELSE {"internal.msh", "internal.vtk"}
     [] c.helper = "external_mesh" -> {"external.vtk"}
     [] c.helper = "solution" -> {c.name}
\* format of a written file
Format(c, n) == IF c.helper = "solution" \/ n \in {"internal.vtk", "external.vtk"} THEN "vtk" ELSE IF n = "internal.msh" THEN "msh" ELSE IF n = "mesh.svg" THEN "svg" ELSE "png"
Join(d, n) == IF d = "" THEN n ELSE d \o "/" \o n
Targets(c) == {Join(c.dir, n) : n \in Names(c)}
\* what the folders may look like afterwards: new content only under the documented names
Allowed(before, after, T) ==
   /\ DOMAIN after = DOMAIN before \cup T
   /\ \A p \in DOMAIN before \ T : after[p] = before[p]
Write(c, content) == files' = [p \in DOMAIN files \cup Targets(c) |-> IF p \in Targets(c) THEN content ELSE files[p]]
=============================================================================
