------------------------------ MODULE TrainLoop ------------------------------
(***************************************************************************)
(* The training loop around a step: stopping rule (C18), history (C19) and *)
(* reporting (C24).  Objectives are small integers chosen by the           *)
(* environment; the loop is the counter machine, the properties below say  *)
(* declaratively when it stops and what it reports.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxObj, MaxK, Broken
VARIABLES K, vi, verbose, rule,     \* options: steps asked, validation interval, verbosity, reference rule
          step, nstall, ref, objs, reported, done
vars == <<K, vi, verbose, rule, step, nstall, ref, objs, reported, done>>

Abs(x) == IF x < 0 THEN -x ELSE x
\* relative change below tol = 1/2; relative residual below tol
Small(o, r) == 2 * Abs(o - r) < r + 1
ResSmall(o) == o = 0

Init == /\ K \in 1..MaxK /\ vi \in {-1, 1, 2, 3} /\ verbose \in BOOLEAN /\ rule \in {"previous", "accepted"}
        /\ step = 0 /\ nstall = 0 /\ ref = 0 /\ objs = <<>> /\ reported = {} /\ done = FALSE
Divides(v, k) == v # -1 /\ k % v = 0
DoStep(o) ==
  LET k == step + 1
      r == IF k = 1 THEN o + 1 ELSE ref
      crit == Small(o, r)
      n == IF crit THEN nstall + 1 ELSE IF Broken = "no-reset" THEN nstall ELSE 0
      stop == n >= (IF Broken = "two" THEN 2 ELSE 3) \/ ResSmall(o) \/ k = K
  IN  /\ ~done
      /\ step' = k
      /\ objs' = Append(objs, o)
      /\ nstall' = n
      /\ ref' = IF rule = "previous" \/ Broken = "ref-moves" THEN o ELSE IF o < r THEN o ELSE r
      /\ reported' = IF (IF Broken = "last-unreported" THEN FALSE ELSE k = K) \/ k = 1 \/ verbose \/ Divides(vi, k)
                     THEN reported \cup {k} ELSE reported
      /\ done' = stop
      /\ UNCHANGED <<K, vi, verbose, rule>>
Next == \E o \in 0..MaxObj : DoStep(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* --- declarative properties -----------------------------------------------
MinUpTo(k) == CHOOSE x \in { objs[1] + 1 } \cup { objs[i] : i \in 1..k } :
                \A y \in { objs[1] + 1 } \cup { objs[i] : i \in 1..k } : x <= y
RefOf(k) == IF k = 1 THEN objs[1] + 1 ELSE IF rule = "previous" THEN objs[k - 1] ELSE MinUpTo(k - 1)
Stall(k) == Small(objs[k], RefOf(k))
StopAt(k) == \/ k >= 3 /\ Stall(k) /\ Stall(k - 1) /\ Stall(k - 2)
             \/ ResSmall(objs[k])
             \/ k = K
StopsExactly == /\ \A k \in 1..(Len(objs) - 1) : ~StopAt(k)
                /\ Len(objs) > 0 => (done <=> StopAt(Len(objs)))
OneEntryPerStep == Len(objs) = step /\ step <= K
ReportsExactly == reported = { k \in 1..step : k = 1 \/ k = K \/ verbose \/ Divides(vi, k) }
Terminates == <>done
=============================================================================
