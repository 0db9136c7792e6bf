------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Files, readers and reads (C11), with file contents as tokens.  A reader *)
(* holds what its file listed at its last successful read.                 *)
(* Broken variants: "first" keeps the first result for ever, "shared"      *)
(* stores the result for all readers, "early" clears the result before the *)
(* file type is checked, "sticky" keeps the first full shape.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Depth, Broken
Files == {"f1", "f2"}          \* two supported files
Contents == {"A", "B"}
Readers == {1, 2}
Bad == 3                       \* a reader of an unsupported file
VARIABLES file,     \* content of each file
          of,       \* file of each reader (0: not opened)
          held,     \* what each reader holds: <<>> or <<content, full>>
          log
vars == <<file, of, held, log>>
All == Readers \cup {Bad}
Init == /\ file = [f \in Files |-> "A"]
        /\ of = [r \in All |-> IF r = Bad THEN "bad" ELSE IF r = 1 THEN "f1" ELSE "none"]
        /\ held = [r \in All |-> <<>>]
        /\ log = <<>>
Say(e) == log' = Append(log, e)
Can == Len(log) < Depth
Write(f, x) == Can /\ file[f] # x /\ file' = [file EXCEPT ![f] = x] /\ Say([op |-> "write", f |-> f, x |-> x]) /\ UNCHANGED <<of, held>>
Open(f) == Can /\ of[2] = "none" /\ of' = [of EXCEPT ![2] = f] /\ Say([op |-> "open", f |-> f]) /\ UNCHANGED <<file, held>>
Read(r, full) ==
  /\ Can /\ of[r] # "none"
  /\ Say([op |-> "read", r |-> r, full |-> full])
  /\ LET x == <<IF r = Bad THEN "?" ELSE file[of[r]], IF Broken = "sticky" /\ held[r] # <<>> THEN held[r][2] ELSE full>> IN
     held' = IF r = Bad THEN (IF Broken = "early" THEN [held EXCEPT ![r] = <<"empty", full>>] ELSE held)
             ELSE IF Broken = "first" /\ held[r] # <<>> THEN held
             ELSE IF Broken = "shared" THEN [q \in All |-> x]
             ELSE [held EXCEPT ![r] = x]
  /\ UNCHANGED <<file, of>>
Next == \/ \E f \in Files, x \in Contents : Write(f, x)
        \/ \E f \in Files : Open(f)
        \/ \E r \in All, full \in BOOLEAN : (r = Bad => ~full) /\ Read(r, full)
Spec == Init /\ [][Next]_vars
\* what a reader should hold, from the log alone
RECURSIVE Replay(_, _)
Replay(i, st) ==
  IF i > Len(log) THEN st.held
  ELSE LET e == log[i] IN
       CASE e.op = "write" -> Replay(i + 1, [st EXCEPT !.file[e.f] = e.x])
         [] e.op = "open" -> Replay(i + 1, [st EXCEPT !.of[2] = e.f])
         [] e.op = "read" -> Replay(i + 1, IF e.r = Bad THEN st ELSE [st EXCEPT !.held[e.r] = <<st.file[st.of[e.r]], e.full>>])
Start == [file |-> [f \in Files |-> "A"], of |-> [r \in Readers |-> IF r = 1 THEN "f1" ELSE "none"], held |-> [r \in All |-> <<>>]]
LastReadHolds == held = Replay(1, Start)
\* histories to replay
ASSUME TLCSet(1, {})
Collect == (Len(log) = Depth /\ \E i \in 1..Depth : log[i].op = "read") => TLCSet(1, TLCGet(1) \cup {log})
WriteOut == JsonSerialize(IOEnv.OUT_FILE, SetToSeq(TLCGet(1)))
=============================================================================
