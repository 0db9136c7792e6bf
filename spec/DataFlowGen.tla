----------------------------- MODULE DataFlowGen -----------------------------
(* Writes histories of length Depth of DataFlow to OUT_FILE. *)
EXTENDS DataFlow, Json, IOUtils, SequencesExt
\* --- histories to replay: each ends with a training of fresh or old data -----
Useful == IF Len(log) # Depth THEN FALSE ELSE
          /\ log[Depth][1] \in {"train", "ask"}
          /\ \E i \in 1..Depth : log[i][1] = "train"
          \* something was exchanged between two looks at it
          /\ \E i, j, k \in 1..Depth : /\ i < j /\ j < k /\ log[j][1] = "set"
                /\ log[i][1] \in {"ask", "build"} /\ log[k][1] \in {"ask", "build"}
                /\ prov[log[i][2]] = log[j][2] /\ prov[log[k][2]] = log[j][2]
          \* a built model is trained before its data are exchanged
          /\ \A i \in 1..Depth : log[i][1] = "train" =>
               LET b == CHOOSE k \in 1..i : log[k][1] = "build" /\ log[k][2] = log[i][2]
                                            /\ \A q \in (k + 1)..i : ~(log[q][1] = "build" /\ log[q][2] = log[i][2])
               IN  \A q \in b..i : ~(log[q][1] = "set" /\ log[q][2] = prov[log[i][2]])
Lean == Cardinality({ i \in 1..Len(log) : log[i][1] = "ask" }) <= 1 /\ Cardinality({ i \in 1..Len(log) : log[i][1] = "set" }) <= 2
ASSUME TLCSet(1, {})
Collect == Useful => TLCSet(1, TLCGet(1) \cup {[prov |-> prov, log |-> log]})
WriteOut == JsonSerialize(IOEnv.OUT_FILE, SetToSeq(TLCGet(1)))
=============================================================================
