---------------------------- MODULE OpGraphTrace ----------------------------
(***************************************************************************)
(* Recorded op graphs of session runs (C23).  A case is one run:           *)
(*   g     the graph (see OpGraph)                                         *)
(*   exts  linear orders of its nodes that were forced on real executions  *)
(*   outs  per order, fingerprints of the returned values and of all       *)
(*         variables afterwards                                            *)
(***************************************************************************)
EXTENDS TraceLanes, OpGraph
WellFormed(c) == Ordered(c.g)
\* every order names each node once and respects the edges
IsExtension(g, e) ==
  /\ Len(e) = Len(g)
  /\ { e[k] : k \in 1..Len(e) } = 1..Len(g)
  /\ LET at == TLCEval([i \in 1..Len(g) |-> CHOOSE k \in 1..Len(e) : e[k] = i])
     IN  \A i \in 1..Len(g) : \A p \in Preds(g, i) : at[p] < at[i]
Verdict(c) ==
  IF Has(c, "err") THEN "the training fails: " \o c.err
  ELSE IF ~Has(c, "g") THEN "the run has no order of its operations"
  ELSE IF ~WellFormed(c) THEN "the driver recorded nodes out of order"
  ELSE LET r == RacePairs(c.g) IN
  IF r # {} THEN
    LET p == CHOOSE p \in r : TRUE IN
    "race between " \o c.g[p[1]].name \o " and " \o c.g[p[2]].name
  ELSE IF ~Has(c, "outs") THEN "ok"
  ELSE IF \E k \in 1..Len(c.exts) : ~IsExtension(c.g, c.exts[k]) THEN "the driver forced a wrong order"
  ELSE IF \E k \in 1..Len(c.outs) : c.outs[k] # c.outs[1] THEN "two schedules of the run give different results"
  ELSE "ok"
Judge == Report(Cases[pos], Verdict(Cases[pos]))
=============================================================================
