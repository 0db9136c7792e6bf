---------------------------- MODULE LifecycleGen ----------------------------
(* Writes the scripts of length Depth of Lifecycle to OUT_FILE. *)
EXTENDS Lifecycle, Json, IOUtils, SequencesExt
CONSTANT Asks          \* at most this many predict and read operations
Num(ops) == Cardinality({ i \in 1..Len(log) : log[i][1] \in ops })
Lean == Num({"predict", "read"}) <= Asks
Collect == (Len(log) = Depth /\ busy = 0 /\ Lean /\ \A m \in Models : result[m] # 0) => TLCSet(1, TLCGet(1) \cup {log})
ASSUME TLCSet(1, {})
Write == JsonSerialize(IOEnv.OUT_FILE, SetToSeq(TLCGet(1)))
=============================================================================
