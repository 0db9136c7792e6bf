------------------------------ MODULE PurityGen ------------------------------
(* Writes the histories of Purity of length Depth that end with a call to OUT_FILE; values are left to the harness. *)
EXTENDS Purity, TLC, Json, IOUtils, SequencesExt
Plain == [i \in 1..Len(log) |-> <<log[i].op, log[i].f, log[i].a>>]
Useful == Len(log) = Depth /\ log[Depth].op = "call" /\ (\E i \in 1..(Depth - 1) : log[i].op = "call")
ASSUME TLCSet(1, {})
Collect == Useful => TLCSet(1, TLCGet(1) \cup {Plain})
WriteOut == JsonSerialize(IOEnv.OUT_FILE, SetToSeq(TLCGet(1)))
=============================================================================
