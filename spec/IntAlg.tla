------------------------------ MODULE IntAlg ------------------------------
(* TensorAlg over the integers. *)
EXTENDS Integers, Sequences
IAdd(a, b) == a + b
IMul(a, b) == a * b
RECURSIVE IDotFrom(_, _, _, _)
IDotFrom(u, v, i, acc) == IF i > Len(u) THEN acc ELSE IDotFrom(u, v, i + 1, acc + u[i] * v[i])
IDot(u, v) == IDotFrom(u, v, 1, 0)
INSTANCE TensorAlg WITH Zero <- 0, One <- 1, Add <- IAdd, Mul <- IMul, Dot <- IDot
=============================================================================
