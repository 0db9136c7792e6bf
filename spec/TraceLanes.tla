----------------------------- MODULE TraceLanes -----------------------------
(***************************************************************************)
(* Evaluation of a file of recorded cases (JSON array, TRACE_FILE).  The   *)
(* machine walks the cases in lanes, so that TLC's workers share them; in  *)
(* every state the recorded case under the cursor is judged.  A module     *)
(* that uses it defines Verdict(c): "ok", or "skip: why" for a case on     *)
(* which the property says nothing, or the name of the violated clause.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_FILE)
NCases == Len(Cases)
Lanes == 64

VARIABLE pos
Init == pos \in 1..(IF NCases < Lanes THEN NCases ELSE Lanes)
Next == pos + Lanes <= NCases /\ pos' = pos + Lanes

Has(c, f) == f \in DOMAIN c
IsSkip(v) == Len(v) > 4 /\ SubSeq(v, 1, 5) = "skip:"
Report(c, v) == IF v = "ok" THEN TRUE
                ELSE IF IsSkip(v) THEN PrintT(<<"SKIP", c.id, v>>)
                ELSE PrintT(<<"FAIL", c.id, v>>)
=============================================================================
