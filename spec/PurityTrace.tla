----------------------------- MODULE PurityTrace -----------------------------
(***************************************************************************)
(* Recorded histories of calls (C38), judged with Purity's own conditions. *)
(* A case holds                                                            *)
(*   start    fingerprints of the objects the caller made                  *)
(*   glob     fingerprint of the global state at the start                 *)
(*   ev[k]    op "call": fn, draws (it draws random numbers), argp (finger-*)
(*            prints of its arguments), out (values handed out), prints    *)
(*            (of all objects after it), glob; op "write": own (objects    *)
(*            written), prints                                             *)
(*   again    the values of the handed out graph tensors at the end        *)
(*   alone    values of the last call in another process in which the      *)
(*            other calls of the history were not made                     *)
(***************************************************************************)
EXTENDS TraceLanes, FxAlg
P == INSTANCE Purity WITH Funs <- {}, Args <- {}, Values <- {}, Depth <- 0, Broken <- "none", heap <- <<>>, refs <- <<>>, glob <- 0, calls <- 0, log <- <<>>
Rel == FPow(1, -1)                                   \* 10^-4
Close(a, b) == /\ a.s = b.s /\ Len(a.d) = Len(b.d)
               /\ \A k \in 1..Len(a.d) : IF PIsFin(a.d[k]) /\ PIsFin(b.d[k]) THEN TRUE ELSE a.d[k] = b.d[k]
               /\ (~Finite(a) \/ NearT(a, b, Rel, FMax(FOne, MaxAbs(b))))
Same(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Close(x[k], y[k])
RECURSIVE From(_, _, _, _)
Step(c, k, was, g) ==
  LET e == c.ev[k] IN
  IF Has(e, "err") THEN "a call failed: " \o e.fn \o " " \o e.err
  ELSE IF e.op = "write" THEN (IF P!WriteKeeps(was, e.prints, { e.own[i] : i \in 1..Len(e.own) }) THEN "ok" ELSE "a result follows what its caller wrote later")
  ELSE IF ~P!CallKeeps(was, e.prints) THEN "a call altered an object its caller holds: " \o e.fn
  ELSE IF e.glob # g /\ ~e.draws THEN "a call altered global state: " \o e.fn
  ELSE IF e.globs # c.globs THEN "a call altered settings of the process: " \o e.fn
  ELSE IF e.draws THEN "ok"
  ELSE IF \E q \in 1..(k - 1) : /\ c.ev[q].op = "call" /\ c.ev[q].fn = e.fn /\ c.ev[q].argp = e.argp /\ ~Same(c.ev[q].out, e.out)
       THEN "the same call gave another result: " \o e.fn
  ELSE "ok"
From(c, k, was, g) ==
  IF k > Len(c.ev) THEN "ok"
  ELSE LET v == Step(c, k, was, g) IN
       IF v # "ok" THEN v ELSE From(c, k + 1, c.ev[k].prints, IF c.ev[k].op = "call" THEN c.ev[k].glob ELSE g)
Verdict(c) ==
  IF Has(c, "err") THEN "the history failed: " \o c.err
  ELSE LET v == From(c, 1, c.start, c.glob) IN
       IF v # "ok" THEN v
       ELSE IF \E i \in 1..Len(c.again) : ~Same(c.ev[c.again[i].ev].out, c.again[i].out) THEN "an earlier result changed its value"
       ELSE IF ~Has(c, "alone") THEN "ok"
       ELSE IF Has(c.alone, "err") THEN "a call failed alone: " \o c.alone.err
       ELSE IF ~Same(c.ev[Len(c.ev)].out, c.alone.out) THEN "a call gave another result than alone: " \o c.ev[Len(c.ev)].fn
       ELSE "ok"
Judge == Report(Cases[pos], Verdict(Cases[pos]))
=============================================================================
