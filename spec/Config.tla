------------------------------- MODULE Config -------------------------------
(* Which option values are supported, and which of them every call examines.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Supported(option) ==
   CASE option = "mesh_type" -> {"quadrilateral"}
     [] option = "source" -> {"internal", "external"}
     [] option = "suffix" -> {".mesh"}
     [] option = "sampling" -> {"uniform", "lhs"}
     [] option = "cell_type" -> {"quadrilateral"}
     [] option = "basis" -> {"legendre", "jacobi", "legendre_special", "chebyshev_2", "jacobi_plain"}
     [] option = "quad" -> {"gauss-legendre", "gauss-jacobi"}
     [] option = "map" -> {"affine", "bilinear"}
     [] option = "dtype" -> {"tf:float32", "tf:float64"}
\* options with numeric ranges: basis order and quadrature order
Ranges == [order |-> <<2, 999>>, qorder |-> <<3, 9999>>]
Good(option, v) == IF option \in DOMAIN Ranges THEN v >= Ranges[option][1] /\ v <= Ranges[option][2] ELSE v \in Supported(option)
\* options examined by each kind of call
Examined == [geometry |-> {"mesh_type", "source"}, read |-> {"suffix", "sampling"}, basis |-> {"cell_type", "order", "basis"}, quadrature |-> {"cell_type", "qorder", "quad"},
             rule |-> {"quad"}, transformation |-> {"cell_type", "map"}, space |-> {"cell_type", "order", "basis", "qorder", "quad", "map"},
             handler |-> {"dtype"}, sensors |-> {"source"}, model |-> {"dtype"}]
\* a call is accepted exactly when every option it examines is supported
Accepts(call, opts) == \A o \in Examined[call] : Good(o, opts[o])
=============================================================================
