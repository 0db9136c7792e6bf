------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* Life of factorization models that live side by side (C20, C22).         *)
(* Each model is built (any number of times), trained and asked; what it   *)
(* holds changes only by its own completed training.  The module states    *)
(* the design, its properties, and (as LifecycleGen) yields the scripts    *)
(* that are replayed on the real models.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Models,       \* the models
          StepCounts,   \* how many steps a training may ask for
          Depth,        \* longest script
          Broken        \* "" for the design; else a deliberately wrong variant

VARIABLES built,     \* models whose computation was built
          busy,      \* the model being trained now, or 0
          result,    \* per model: 0, or the number of the training it shows
          finished,  \* per model: the train_finish flag
          count,     \* trainings started so far
          log        \* the script so far (history)
vars == <<built, busy, result, finished, count, log>>

Init == /\ built = {} /\ busy = 0 /\ count = 0 /\ log = <<>>
        /\ result = [m \in Models |-> 0]
        /\ finished = [m \in Models |-> FALSE]

Build(m) == /\ busy = 0 /\ Len(log) < Depth
            /\ built' = built \cup {m}
            /\ result' = IF Broken = "build-forgets" THEN [result EXCEPT ![m] = 0] ELSE result
            /\ log' = Append(log, <<"build", m, 0>>)
            /\ UNCHANGED <<busy, finished, count>>
\* training is two actions: while it runs, its model must not claim to be finished
BeginTrain(m, s) ==
  /\ busy = 0 /\ m \in built /\ Len(log) < Depth
  /\ busy' = m
  /\ count' = count + 1
  /\ finished' = IF Broken = "flag-stays" THEN finished ELSE [finished EXCEPT ![m] = FALSE]
  /\ log' = Append(log, <<"train", m, s>>)
  /\ UNCHANGED <<built, result>>
EndTrain ==
  /\ busy # 0
  /\ busy' = 0
  /\ result' = IF Broken = "shared-result" THEN [m \in Models |-> IF result[m] # 0 \/ m = busy THEN count ELSE 0]
               ELSE [result EXCEPT ![busy] = count]
  /\ finished' = [finished EXCEPT ![busy] = TRUE]
  /\ UNCHANGED <<built, count, log>>
Predict(m) == /\ busy = 0 /\ Len(log) < Depth
              /\ log' = Append(log, <<"predict", m, 0>>)
              /\ UNCHANGED <<built, busy, result, finished, count>>
Read(m) == /\ busy = 0 /\ Len(log) < Depth
           /\ log' = Append(log, <<"read", m, 0>>)
           /\ UNCHANGED <<built, busy, result, finished, count>>
Next == \/ \E m \in Models : Build(m) \/ Predict(m) \/ Read(m) \/ \E s \in StepCounts : BeginTrain(m, s)
        \/ EndTrain
Spec == Init /\ [][Next]_vars

\* --- properties of the design ---------------------------------------------
TypeOK == /\ built \subseteq Models /\ busy \in Models \cup {0}
          /\ \A m \in Models : result[m] \in 0..count /\ finished[m] \in BOOLEAN
\* number of the last training of m in the script
RECURSIVE LastTrain(_, _, _)
Trains(m) == { i \in 1..Len(log) : log[i][1] = "train" /\ log[i][2] = m }
Ordinal(i) == Cardinality({ j \in 1..i : log[j][1] = "train" })
LastTrain(m, i, best) == IF i > Len(log) THEN best
                         ELSE LastTrain(m, i + 1, IF i \in Trains(m) THEN Ordinal(i) ELSE best)
\* a model not being trained shows exactly its own last training
OwnResult == \A m \in Models : m # busy => result[m] = LastTrain(m, 1, 0)
FinishedMeansDone == \A m \in Models : finished[m] <=> (m # busy /\ result[m] # 0)
BusyNotFinished == busy # 0 => ~finished[busy]
\* a result never disappears
Keeps == [][\A m \in Models : result[m] # 0 => result'[m] # 0]_vars
=============================================================================
