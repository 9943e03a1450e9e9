------------------------------ MODULE MCLambdify ------------------------------
EXTENDS LambdifyMachine
(* histories of equal length that lead to the same state are the same *)
View == <<heap, memory, disk, held, funcs, Len(hist), IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>
================================================================================
