------------------------------- MODULE DTensor -------------------------------
(***************************************************************************)
(* A dense-tensor object: a value that never changes and, in the code, a   *)
(* remembered unfolding (C08).  Answers must be functions of the value and *)
(* the call alone.  Also yields the histories that are replayed on the     *)
(* real class (every sequence of Depth calls).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Depth, Broken
Calls == {"unfold", "unfold0", "unfold1", "unfold2", "t2mat1", "t2mat2", "vectorize",
          "add", "sub", "had", "mul", "index", "fold"}
VARIABLES value,     \* the object's value (an abstract token)
          kept,      \* remembered unfolding: <<>> or <<mode>>
          log        \* calls and answers so far
vars == <<value, kept, log>>
ModeOf(c) == CASE c = "unfold" -> 0 [] c = "unfold0" -> 0 [] c = "unfold1" -> 1 [] c = "unfold2" -> 2
IsUnfold(c) == c \in {"unfold", "unfold0", "unfold1", "unfold2"}
\* what a call answers for a value
Direct(c, x) == IF IsUnfold(c) THEN <<"unfolding", ModeOf(c), x>> ELSE <<c, 0, x>>
Init == value = "T" /\ kept = <<>> /\ log = <<>>
Call(c) ==
  /\ Len(log) < Depth
  /\ LET a == IF IsUnfold(c) /\ Broken = "reuse" /\ kept # <<>> THEN <<"unfolding", kept[1], value>>
              ELSE IF c = "vectorize" /\ Broken = "vectorize-unfolded" /\ kept # <<>> THEN <<c, kept[1], value>>
              ELSE Direct(c, value)
     IN  log' = Append(log, <<c, a>>)
  /\ kept' = IF IsUnfold(c) /\ kept = <<>> THEN <<ModeOf(c)>> ELSE kept
  /\ value' = IF Broken = "in-place" /\ c = "add" THEN "T+T" ELSE value
Next == \E c \in Calls : Call(c)
Spec == Init /\ [][Next]_vars
AnswersFromValue == \A i \in 1..Len(log) : log[i][2] = Direct(log[i][1], "T")
ValueStays == value = "T"
\* histories
ASSUME TLCSet(1, {})
Collect == Len(log) = Depth => TLCSet(1, TLCGet(1) \cup { [i \in 1..Depth |-> log[i][1]] })
Write == JsonSerialize(IOEnv.OUT_FILE, SetToSeq(TLCGet(1)))
=============================================================================
