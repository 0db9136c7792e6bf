------------------------------ MODULE PitfLoop ------------------------------
(***************************************************************************)
(* The dual iteration of PITF training as a protocol (C29, C30): a run     *)
(* draws a sample, zeroes the multipliers and then makes its steps, each   *)
(* an update of the multipliers computed from the sample of the run.       *)
(* Multipliers are represented by the list of samples their terms came     *)
(* from.  Broken variants: "redraw" draws for each step, "resume" keeps    *)
(* the multipliers of the run before, "stale" uses the multipliers of two  *)
(* steps ago.  A run reports its first and last step and every multiple of *)
(* its interval (C36): step number and the multipliers of that step; it is *)
(* finished when its last step is done.  "forget" leaves the last step out,*)
(* "early" reports the multipliers before the step, "silent" never sets    *)
(* the mark of being finished.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Samples, MaxSteps, MaxRuns, Broken
VARIABLES run, k, want, sample, y, prev, trail, every, shown, fin
vars == <<run, k, want, sample, y, prev, trail, every, shown, fin>>
Reported(j, w, e) == j = 1 \/ j = w \/ (e # -1 /\ j % e = 0)
Init == run = 0 /\ k = 0 /\ want = 0 /\ sample \in Samples /\ y = <<>> /\ prev = <<>> /\ trail = <<>>
        /\ every = -1 /\ shown = <<>> /\ fin = FALSE
Start == /\ run < MaxRuns /\ k = want
         /\ run' = run + 1 /\ k' = 0
         /\ \E w \in 1..MaxSteps : want' = w
         /\ \E s \in Samples : sample' = s
         /\ y' = IF Broken = "resume" THEN y ELSE <<>>
         /\ prev' = y' /\ trail' = <<>> /\ shown' = <<>> /\ fin' = fin
         /\ \E e \in {-1, 1, 2, 3} : every' = e
Step == /\ k < want
        /\ k' = k + 1
        /\ \E s \in (IF Broken = "redraw" THEN Samples ELSE {sample}) :
             LET from == IF Broken = "stale" THEN prev ELSE y IN
             /\ y' = Append(from, s)
             /\ trail' = Append(trail, y')
             /\ prev' = y
             /\ sample' = s
        /\ shown' = IF Reported(k', want, every) /\ ~(Broken = "forget" /\ k' = want /\ k' > 1)
                    THEN Append(shown, [step |-> k', y |-> IF Broken = "early" THEN y ELSE y']) ELSE shown
        /\ fin' = (Broken # "silent" /\ (fin \/ k' = want))
        /\ UNCHANGED <<run, want, every>>
Next == Start \/ Step
Spec == Init /\ [][Next]_vars
OneSample == \A i \in 1..Len(y) : run > 0 => y[i] = sample
FromZero == Len(trail) > 0 => Len(trail[1]) = 1
Recursion == \A i \in 1..(Len(trail) - 1) : Len(trail[i + 1]) = Len(trail[i]) + 1
\* C36
RECURSIVE Steps(_, _, _, _)
Steps(j, upto, w, e) == IF j > upto THEN <<>> ELSE (IF Reported(j, w, e) THEN <<j>> ELSE <<>>) \o Steps(j + 1, upto, w, e)
ReportsRight == [i \in 1..Len(shown) |-> shown[i].step] = Steps(1, k, want, every)
ReportsTrue == \A i \in 1..Len(shown) : shown[i].y = trail[shown[i].step]
FinishRight == (run > 0 /\ k = want) => fin
=============================================================================
