------------------------------ MODULE ExpFiles ------------------------------
(***************************************************************************)
(* The result files of the experiment scripts (C37).  A run is a record    *)
(*   m: method, n: the three sizes, g: generation rank, d: decomposition   *)
(*   rank, t: run number                                                   *)
(* and its file is named after m, the first size, g, d and t.  A run       *)
(* replaces the file of its name by its history and touches no other file. *)
(***************************************************************************)
EXTENDS Integers, Sequences
Name(r) == <<r.m, r.n[1], r.g, r.d, r.t>>
\* the files after run r with history h
After(fs, r, h) == [x \in DOMAIN fs \cup {Name(r)} |-> IF x = Name(r) THEN h ELSE fs[x]]
=============================================================================
