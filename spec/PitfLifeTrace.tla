---------------------------- MODULE PitfLifeTrace ----------------------------
(***************************************************************************)
(* Histories of PITF runs (C36): which steps are reported (PitfLoop's      *)
(* Reported), that the reports are those of the multipliers seen after     *)
(* each step, when a model counts as finished, and that runs with the same *)
(* graph and seed repeat each other, whatever else was built or trained.   *)
(***************************************************************************)
EXTENDS FxAlg, TraceLanes
Reported(j, w, e) == j = 1 \/ j = w \/ (e # -1 /\ j % e = 0)
RECURSIVE Steps(_, _, _)
Steps(j, w, e) == IF j > w THEN <<>> ELSE (IF Reported(j, w, e) THEN <<j>> ELSE <<>>) \o Steps(j + 1, w, e)
If(b, x) == IF b THEN "ok" ELSE x
RECURSIVE FirstOk(_, _)
FirstOk(q, n) == IF n > Len(q) THEN "ok" ELSE IF q[n] # "ok" THEN q[n] ELSE FirstOk(q, n + 1)
AllOk(n, k, F(_)) == LET RECURSIVE G(_)
                         G(i) == IF i > n THEN "ok" ELSE LET x == F(i) IN IF x # "ok" THEN x ELSE G(i + 1)
                     IN G(k)
Col(q, f) == [i \in 1..Len(q) |-> q[i][f]]
Micro(n) == FMul(FInt(n), FPow(100, -2))            \* n / 10^6
Fine(a, b) == PIsFin(a) /\ PIsFin(b) /\ FLe(FAbs(FSub(a, b)), FMul(Micro(2), FAdd(FMul(FPow(100, -1), FOne), FAbs(b))))
Off(a, b, tol) == ~PIsFin(a) \/ ~FLe(FAbs(FSub(a, b)), tol)
Root(n) == FSqrt(FInt(Prod(n)))
FmtOk(printed, y) == printed.s = y.s /\ Finite(printed) /\ FLe(MaxAbs(SubT(printed, y)), FMul(Micro(1), MaxAbs(y)))

\* --- TensorFlow -----------------------------------------------------------
TfTrain(r, e) ==
  LET m == r.models[e.m]
      want == Steps(1, e.steps, m.every)
  IN IF ~({"lines", "sums", "Y", "ys", "es"} \subseteq DOMAIN e) THEN "a run left no reports"
     ELSE FirstOk(<<
       If(Col(e.lines, "step") = want, "progress is not printed for exactly the configured steps"),
       If(Col(e.sums, "step") = want, "summary records are not written for exactly the configured steps"),
       If(e.elsewhere = 0, "summary records went to the path of another model"),
       If(Len(e.ys) = Len(want) /\ Len(e.es) = Len(want), "the trace files do not hold one entry per reported step"),
       If(Len(e.Y) = e.steps /\ \A j \in 1..Len(e.Y) : Finite(e.Y[j]) /\ e.Y[j].s = <<m.num>>, "skip: the multipliers did not change in every step")>>, 1)
\* the parts that need the multipliers
TfTold(r, e) ==
  LET m == r.models[e.m]
      want == Steps(1, e.steps, m.every)
      delta == FDiv(FMul(m.delt, FInt(m.num)), Root(m.n))
      Before(j) == IF j = 1 THEN Scale(e.Y[1], FZero) ELSE e.Y[j - 1]
      Err(j) == DivBy(SubT(e.Y[j], Before(j)), delta)
      E1 == Err(1)
      Unit(j) == FMul(FAdd(MaxAbs(e.Y[j]), MaxAbs(Before(j))), FDiv(Micro(2), delta))
      Slack(j) == FAdd(FMul(Unit(j), FInt(m.num)), FMul(Micro(20), Norm(E1)))
      Told(q) == AllOk(Len(q), 1, LAMBDA i :
                   LET j == q[i].step n == Norm(Err(j)) IN
                   FirstOk(<<If(~Off(q[i].rate, FDiv(n, Norm(E1)), FDiv(Slack(j), Norm(E1))), "a reported error rate is not that of its step"),
                             If(~Off(q[i].rmse, FDiv(n, FSqrt(FInt(m.num))), FAdd(Slack(j), Micro(1))), "a reported RMSE is not that of its step")>>, 1))
  IN IF E1.d = [i \in 1..m.num |-> FZero] THEN "ok"
     ELSE FirstOk(<<Told(e.lines), Told(e.sums),
       If(\A i \in 1..Len(want) : FmtOk(e.ys[i], e.Y[want[i]]), "the file of multipliers does not show those of the reported step"),
       If(\A i \in 1..Len(want) : LET j == want[i] IN
            e.es[i].s = E1.s /\ Finite(e.es[i]) /\ FLe(MaxAbs(SubT(SubT(E1, Err(j)), e.es[i])), FAdd(Slack(j), FMul(Micro(20), MaxAbs(e.es[i])))),
          "the file of pair samples does not show those of the reported step")>>, 1)
\* an earlier run of the same model made the same steps
Repeats(r, i) ==
  LET e == r.ev[i] IN
  AllOk(i - 1, 1, LAMBDA k :
    LET d == r.ev[k] IN
    IF d.op # "train" \/ d.m # e.m \/ ~Has(d, "Y") THEN "ok"
    ELSE LET n == IF Len(d.Y) < Len(e.Y) THEN Len(d.Y) ELSE Len(e.Y) IN
         AllOk(n, 1, LAMBDA j : If(Finite(d.Y[j]) => NearT(e.Y[j], d.Y[j], Micro(10), Micro(1)), "training again does not repeat the run")))
\* the last training does what it does when nothing was trained before
Alone(r, i) ==
  LET e == r.ev[i] d == r.alone
      Last == ~\E k \in (i + 1)..Len(r.ev) : r.ev[k].op = "train"
  IN IF e.op # "train" \/ ~Has(r, "alone") \/ ~Last THEN "ok"
     ELSE IF d.op # "train" \/ d.m # e.m \/ Has(d, "err") THEN "training alone ended without a result"
     ELSE IF Has(d, "Y") THEN AllOk(Len(e.Y), 1, LAMBDA j : If(Finite(d.Y[j]) => NearT(e.Y[j], d.Y[j], Micro(10), Micro(1)), "training after other trainings differs from training alone"))
     ELSE If(e.y = d.y /\ e.E = d.E /\ e.R = d.R /\ e.ys = d.ys, "a recovery after others differs from the same alone")
WasTrained(r, i, m) == \E k \in 1..i : r.ev[k].op = "train" /\ r.ev[k].m = m
TfEvent(r, i) ==
  LET e == r.ev[i] IN
  IF Has(e, "err") THEN "an event raised an error"
  ELSE FirstOk(<<
    If(\A m \in 1..Len(r.models) : e.fin[m] = WasTrained(r, i, m), "a model is marked finished although it was not trained, or a trained one is not"),
    If(e.kept, "the result of another model changed"),
    IF e.op = "train" THEN LET t == TfTrain(r, e) IN IF t # "ok" THEN (IF IsSkip(t) THEN "ok" ELSE t) ELSE FirstOk(<<TfTold(r, e), Repeats(r, i), Alone(r, i)>>, 1) ELSE "ok">>, 1)

\* --- numpy ----------------------------------------------------------------
NpEvent(r, i) ==
  LET e == r.ev[i] n == e.steps IN
  IF Has(e, "err") \/ ~({"y", "E", "R", "lines", "ys", "es"} \subseteq DOMAIN e) THEN "an event raised an error or left no reports"
  ELSE IF ~e.same THEN "the data were modified"
  ELSE IF Col(e.lines, "step") # [j \in 1..n |-> j - 1] THEN "not every iteration is printed once, in order"
  ELSE IF Len(e.E) # n \/ Len(e.R) # n THEN "there is not one returned record per iteration"
  ELSE IF e.ysn # [j \in 1..n |-> j - 1] \/ e.esn # [j \in 1..n |-> j - 1] THEN "the files do not hold one entry per iteration"
  ELSE FirstOk(<<
    If(\A j \in 1..n : Fine(e.lines[j].rate, e.E[j]) /\ Fine(e.lines[j].rmse, e.R[j]), "a printed error rate or RMSE is not the returned one"),
    If(~Finite(e.y) \/ FmtOk(e.ys[n], e.y), "the file of multipliers does not end with the returned ones"),
    \* the same random state gives the same run
    AllOk(i - 1, 1, LAMBDA k :
      LET d == r.ev[k] q == IF d.steps < n THEN d.steps ELSE n IN
      IF d.m # e.m \/ d.seed # e.seed THEN "ok"
      ELSE If(\A j \in 1..q : e.ys[j] = d.ys[j] /\ e.E[j] = d.E[j] /\ e.R[j] = d.R[j], "the same random state does not repeat the run")),
    Alone(r, i)>>, 1)
Verdict(r) == IF Has(r, "err") THEN "the run ended without a result"
              ELSE AllOk(Len(r.ev), 1, LAMBDA i : IF r.impl = "np" THEN NpEvent(r, i) ELSE TfEvent(r, i))
Judge == Report(Cases[pos], Verdict(Cases[pos]))
=============================================================================
