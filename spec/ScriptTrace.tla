---------------------------- MODULE ScriptTrace ----------------------------
(***************************************************************************)
(* Checks recorded scripts of build / train / predict / read operations on *)
(* the factorization models (C18 stop rule, C19 history, C20 life cycle,   *)
(* C21 reproducibility, C22 independence, C24 reports).  The state is that *)
(* of Lifecycle (what each model shows) plus the reference trainings seen  *)
(* so far; the loop of TrainLoop is evaluated on each recorded history.    *)
(***************************************************************************)
EXTENDS Measures, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c,      \* number of the case
          i,      \* events consumed
          shown,  \* per model: digest of the result it holds, -1 if none
          done,   \* per model: number of the event that trained it last, 0 if none
          v       \* verdict so far
vars == <<c, i, shown, done, v>>
Has(r, f) == f \in DOMAIN r
Case == Cases[c]
IsSkip(x) == Len(x) > 4 /\ SubSeq(x, 1, 5) = "skip:"
RECURSIVE First(_, _)
First(q, n) == IF n > Len(q) THEN "ok" ELSE IF q[n] # "ok" THEN q[n] ELSE First(q, n + 1)
FirstOf(n, F(_)) == LET RECURSIVE G(_)
                        G(k) == IF k > n THEN "ok" ELSE LET x == F(k) IN IF x # "ok" THEN x ELSE G(k + 1)
                    IN G(1)
If(b, x) == IF b THEN "ok" ELSE x
Iter == {"cp", "ncp", "ntucker", "hooi"}          \* kinds with a training loop
Mod(r, e) == r.models[e.m]
FinHist(h) == \A k \in 1..Len(h) : PIsFin(h[k][1]) /\ PIsFin(h[k][2])

\* every state that could be observed, and the histories of longer trainings at that step
\* the data of step k: they may be rescaled between two steps; a program that computes the
\* numbers of a step after it has shown its state already sees the next data
DataAt(md, k) == IF ~Has(md, "cum") \/ k > Len(md.cum) THEN md.X ELSE [s |-> md.X.s, d |-> [n \in 1..Len(md.X.d) |-> FMul(md.cum[k], md.X.d[n])]]
StepHist(md, h, k, P) ==
  LET a == StateHist(h[k], DataAt(md, k), P) IN
  IF a = "ok" \/ ~Has(md, "cum") \/ k >= Len(md.cum) THEN a
  ELSE IF StateHist(h[k], DataAt(md, k + 1), P) = "ok" THEN "ok" ELSE a
HistVerdict(r, e, n) ==
  LET md == Mod(r, e) IN
  IF Mod(r, e).kind \notin Iter THEN "ok"
  ELSE IF ~e.hashist \/ e.n = 0 THEN "training returned no history"
  ELSE IF e.n > e.k THEN "more history entries than steps"
  ELSE IF ~FinHist(e.hist) THEN (IF PrintT(<<"NOTE", r.id, "history not finite">>) THEN "ok" ELSE "ok")
  ELSE First(<<
    StepHist(md, e.hist, e.n, e.full),
    IF Has(e, "steps") /\ Len(e.steps) = e.n THEN FirstOf(e.n, LAMBDA k : StepHist(md, e.hist, k, e.steps[k])) ELSE "ok",
    FirstOf(n - 1, LAMBDA j : LET o == r.ev[j] IN
       IF o.op = "train" /\ o.m = e.m /\ ~Has(o, "err") /\ o.n > e.n
       THEN StepHist(md, o.hist, e.n, e.full) ELSE "ok")>>, 1)

\* --- the stopping rule (C18), evaluated as TrainLoop does ------------------
\* objective of step k: from the loss where all data are nonzero (also right when the
\* data are rescaled while training runs), else from the residual
ObjOf(md, xn, pos, hs) == IF pos THEN FMul(FMul(FHalf, FInt(Len(md.X.d))), Sq(hs[1])) ELSE FMul(FHalf, Sq(FMul(hs[2], xn)))
\* st: set of possible stall counts, ref: reference objective
StopStep(md, tol, k, o, rel, st) ==
  LET ref == IF k = 1 THEN FAdd(o, FOne) ELSE st.ref
      d == FAbs(FSub(o, ref))
      er == FMul(E6(6), FAdd(o, ref))
      den == FAdd(ref, FOne)
      lo == FDiv(FSub(d, er), den) hi == FDiv(FAdd(d, er), den)
      \* nothing is below a tolerance of zero or less
      none == FLe(tol, FZero)
      ns == IF none THEN {0} ELSE IF FLt(hi, tol) THEN { n + 1 : n \in st.ns }
            ELSE IF FLe(tol, lo) THEN {0} ELSE {0} \cup { n + 1 : n \in st.ns }
      tiny == FMul(E6(1), FAbs(tol))
      relmust == ~none /\ FLt(rel, FSub(tol, tiny)) relmay == ~none /\ FLe(rel, FAdd(tol, tiny))
  IN  [ns |-> { IF n > 3 THEN 3 ELSE n : n \in ns },
       ref |-> IF md.kind \in {"cp", "hooi"} THEN o ELSE IF FLt(o, ref) THEN o ELSE ref,
       must |-> relmust \/ \A n \in ns : n >= 3,
       may |-> relmay \/ \E n \in ns : n >= 3]
StopVerdict(r, e) ==
  LET md == Mod(r, e)
      pos == \A n \in 1..Len(md.X.d) : md.X.d[n][1] # 0
      xn == Norm(md.X)
      RECURSIVE Go(_, _)
      Go(k, st) ==
        LET s == StopStep(md, md.tol, k, TLCEval(ObjOf(md, xn, pos, e.hist[k])), e.hist[k][2], st) IN
        IF k < e.n THEN (IF s.must THEN "training went on after a step that meets the stopping rule" ELSE Go(k + 1, s))
        ELSE IF k = e.k THEN "ok"
        ELSE IF ~s.may THEN "training stopped at a step that does not meet the stopping rule"
        ELSE "ok"
  IN  IF md.kind \notin Iter THEN "ok"
      ELSE IF ~e.hashist \/ e.n = 0 THEN "training returned no history"
      ELSE IF e.n > e.k THEN "training ran more steps than requested"
      ELSE IF ~FinHist(e.hist) THEN "skip: history not finite"
      ELSE Go(1, [ns |-> {0}, ref |-> FZero])

\* --- what a trained model shows (C20) --------------------------------------
Recon(r, e) ==
  LET md == Mod(r, e) ones == [k \in 1..md.ranks[1] |-> FOne] IN
  IF ~Has(e, "fac") \/ ~Has(e, "full") THEN "after training factors or full are missing"
  ELSE IF md.kind \in {"ntucker", "hosvd", "hooi"} /\ ~Has(e, "core") THEN "after training the core is missing"
  ELSE IF md.kind = "cp" /\ ~Has(e, "lam") THEN "after training the weights are missing"
  ELSE IF e.full.s # md.X.s \/ Len(e.fac) # Len(md.X.s) THEN "the full tensor has the wrong shape"
  ELSE IF \E n \in 1..Len(e.fac) : e.fac[n].s # <<md.X.s[n], md.ranks[n]>> THEN "a factor has the wrong shape"
  ELSE IF ~Finite(e.full) THEN (IF PrintT(<<"NOTE", r.id, "full not finite">>) THEN "ok" ELSE "ok")
  ELSE LET lam == IF Has(e, "lam") /\ Len(e.lam.d) = md.ranks[1] THEN e.lam.d ELSE ones
           P == IF md.kind \in {"cp", "ncp"} THEN Kruskal(e.fac, lam) ELSE Tucker(e.core, e.fac)
           mx == [n \in 1..Len(e.fac) |-> FMax(FOne, MaxAbs(e.fac[n]))]
           sc == IF md.kind \in {"cp", "ncp"} THEN FMul(FInt(md.ranks[1]), FMul(FMaxAbs(lam), FProd(mx)))
                 ELSE FMul(MaxAbs(e.core), FMul(FProd(mx), FInt(Len(e.core.d))))
       IN  If(WithinT(P, e.full, FAdd(FMul(E6(5), sc), FMul(E6(20), MaxAbs(P)))), "the full tensor is not the reconstruction from factors, core and weights")
LifeVerdict(r, e) ==
  LET m == e.m was == done[m] IN
  IF e.op = "build" THEN If(~Has(e, "err"), "building raised an error")
  ELSE IF e.op = "train" THEN
    IF Has(e, "err") THEN "training raised an error"
    ELSE IF e.during THEN "train_finish was true while training ran"
    ELSE IF ~e.finish THEN "train_finish is not true after training"
    ELSE IF ~e.hasfull \/ ~e.hasfac THEN "after training factors or full are missing"
    ELSE Recon(r, e)
  ELSE IF e.op = "predict" THEN
    IF was = 0 THEN If(Has(e, "err") /\ e.err = "TensorErr", "predict before training did not raise TensorErr")
    ELSE IF Has(e, "err") THEN "predict raised an error after training"
    ELSE LET x == At(r.ev[was].full, e.ix) IN
         If(e.val = x \/ ~PIsFin(x), "predict is not the entry of the full tensor the training left")
  ELSE \* read
    IF Has(e, "err") THEN "reading the model raised an error"
    ELSE IF was = 0 THEN First(<<If(~e.hasfull /\ ~e.hasfac, "full or factors exist before training"),
                               If(~e.finish, "train_finish is true before training")>>, 1)
    ELSE First(<<If(e.hasfull /\ e.hasfac, "the result disappeared"),
                 If(e.finish, "train_finish is not true after training"),
                 If(~Has(e, "full") \/ e.full = r.ev[was].full, "the full tensor changed although the model was not trained")>>, 1)

\* --- two trainings that must agree (C21, C22) ------------------------------
Close(a, b, sc) == FLe(FAbs(FSub(a, b)), FAdd(FMul(E6(100), FAbs(b)), FMul(E6(10), sc)))
SameRun(X, e, o) ==      \* histories on the common prefix, results if equally long
  LET n == IF e.n < o.n THEN e.n ELSE o.n IN
  IF e.hashist /\ ~(FinHist(e.hist) /\ FinHist(o.hist)) THEN "ok"
  ELSE IF e.hashist /\ (\E k \in 1..n : ~Close(e.hist[k][1], o.hist[k][1], MaxAbs(X)) \/ ~Close(e.hist[k][2], o.hist[k][2], FOne))
       THEN "the history differs from that of the reference training"
  ELSE IF e.n = o.n /\ Finite(o.full) /\ ~(e.full.s = o.full.s /\ WithinT(e.full, o.full, FMul(E6(200), FMax(MaxAbs(X), MaxAbs(o.full)))))
       THEN "the result differs from that of the reference training"
  ELSE "ok"
\* one and the same graph and seed: what is left is the rounding of differently fused kernels
Tight(X, e, o) ==
  LET n == IF e.n < o.n THEN e.n ELSE o.n
      T(a, b, sc) == FLe(FAbs(FSub(a, b)), FAdd(FMul(FPow(20, -2), FAbs(b)), FMul(FPow(1, -2), sc))) IN
  IF ~e.hashist \/ ~(FinHist(e.hist) /\ FinHist(o.hist)) THEN "ok"
  ELSE IF \E k \in 1..n : ~T(e.hist[k][1], o.hist[k][1], MaxAbs(X)) \/ ~T(e.hist[k][2], o.hist[k][2], FOne)
       THEN "the history differs from that of the reference training in its last digits"
  ELSE IF e.n = o.n /\ Finite(o.full) /\ ~WithinT(e.full, o.full, FMul(FPow(50, -2), MaxAbs(o.full)))
       THEN "the result differs from that of the reference training in its last digits"
  ELSE "ok"
ReproVerdict(r, e, n) ==
  LET prev == { j \in 1..(n - 1) : r.ev[j].op = "train" /\ ~Has(r.ev[j], "err") } IN
  IF Has(e, "err") THEN "training raised an error"
  ELSE IF prev = {} THEN "ok"
  ELSE LET least == CHOOSE j \in prev : \A q \in prev : j <= q
           same == { j \in prev : r.ev[j].n = e.n }
           eqn == IF same = {} THEN least ELSE CHOOSE j \in same : \A q \in same : j <= q
       IN  First(<<SameRun(Mod(r, e).X, e, r.ev[least]), SameRun(Mod(r, e).X, e, r.ev[eqn]), Tight(Mod(r, e).X, e, r.ev[least])>>, 1)
IndepVerdict(r, e) ==
  LET X == Mod(r, e).X IN
  IF e.op # "train" THEN If(~Has(e, "err") \/ done[e.m] = 0, "an operation raised an error beside another model")
  ELSE IF Has(e, "err") THEN "training raised an error beside another model"
  ELSE First(<<IF Has(e, "base") THEN (IF e.n # e.base.n THEN "the number of steps differs from that of the model alone"
                                     ELSE IF [k \in 1..Len(e.lines) |-> e.lines[k][1]] # [k \in 1..Len(e.base.lines) |-> e.base.lines[k][1]]
                                          THEN "the reported steps differ from those of the model alone"
                                     ELSE SameRun(X, e, e.base)) ELSE "ok",
               IF e.hashist /\ FinHist(e.hist) THEN StateHist(e.hist[e.n], X, e.full) ELSE "ok">>, 1)

\* --- reports (C24) ---------------------------------------------------------
RECURSIVE Asc(_, _, _)
Asc(k, n, P) == IF k > n THEN <<>> ELSE IF k \in P THEN <<k>> \o Asc(k + 1, n, P) ELSE Asc(k + 1, n, P)
Eq6(a, b) == FLe(FAbs(FSub(a, b)), FAdd(FMul(E6(2), FAbs(b)), FDiv(E6(2), FInt(1000))))
ReportVerdict(r, e) ==
  LET md == Mod(r, e)
      P == { k \in 1..e.n : k = 1 \/ k = e.k \/ md.verbose \/ (md.vi > 0 /\ k % md.vi = 0) }
      Q == Asc(1, e.n, P)
  IN  IF Has(e, "err") THEN "training raised an error"
      ELSE IF md.kind = "hosvd" THEN
        First(<<If(Len(e.sums) = 1 /\ e.sums[1].step = 1 /\ e.sums[1].nl = 1, "HOSVD did not write one summary record at step 1"),
                If(Len(e.sums) # 1 \/ LossOk(e.sums[1].loss, md.X, e.full), "the loss in the summary is not that of the result")>>, 1)
      ELSE IF ~e.hashist \/ e.n = 0 THEN "training returned no history"
      ELSE IF ~FinHist(e.hist) THEN "skip: history not finite"
      ELSE First(<<
        If(Len(e.lines) = Len(Q) /\ \A k \in 1..Len(Q) : e.lines[k][1] = Q[k], "progress lines are not at exactly the configured steps"),
        If(Len(e.sums) = Len(Q) /\ \A k \in 1..Len(Q) : e.sums[k].step = Q[k], "summary records are not at exactly the configured steps"),
        If(\A k \in 1..Len(e.lines) : LET s == e.lines[k][1] IN
             s \in 1..e.n => Eq6(e.lines[k][2], e.hist[s][1]) /\ Eq6(e.lines[k][3], e.hist[s][2]), "a progress line does not carry that step's loss and residual"),
        If(\A k \in 1..Len(e.sums) : e.sums[k].nl = 1 /\ e.sums[k].nr = 1, "a summary record does not carry one loss and one residual"),
        If(\A k \in 1..Len(e.sums) : LET s == e.sums[k].step IN
             s \in 1..e.n => Eq6(e.sums[k].loss, e.hist[s][1]) /\ Eq6(e.sums[k].rel, e.hist[s][2]), "a summary record differs from the history of its step")>>, 1)

\* --- the machine -----------------------------------------------------------
\* only the model an operation is about may change what it holds, and only by build or train
OthersKeep(r, e) ==
  If(\A m \in 1..Len(r.models) : m # e.m => e.held[m][1] = shown[m],
     "an operation on one model changed what another holds")
HistKept(e) == If(~Has(e, "histok") \/ e.histok, "a history returned earlier has changed")
OwnKeeps(r, e) == If(e.op \in {"build", "train"} \/ e.held[e.m][1] = shown[e.m], "predicting or reading changed the model")
EventVerdict(r, e, n) ==
  IF r.check \in {"life", "indep"} /\ Has(e, "held") /\ OthersKeep(r, e) # "ok" THEN OthersKeep(r, e)
  ELSE IF r.check \in {"hist", "repro", "indep"} /\ HistKept(e) # "ok" THEN HistKept(e)
  ELSE IF r.check = "life" THEN First(<<OwnKeeps(r, e), LifeVerdict(r, e),
         If(~Has(e, "dataok") \/ e.dataok, "the data of the user were modified")>>, 1)
  ELSE IF r.check = "indep" THEN IndepVerdict(r, e)
  ELSE IF e.op # "train" THEN If(~Has(e, "err"), "an operation raised an error")
  ELSE IF Has(e, "err") THEN "training raised an error"
  ELSE IF r.check = "stop" THEN StopVerdict(r, e)
  ELSE IF r.check = "hist" THEN HistVerdict(r, e, n)
  ELSE IF r.check = "repro" THEN ReproVerdict(r, e, n)
  ELSE IF r.check = "report" THEN ReportVerdict(r, e)
  ELSE "unknown check"

Init == /\ c \in 1..Len(Cases)
        /\ i = 0
        /\ shown = [m \in 1..Len(Cases[c].models) |-> -1]
        /\ done = [m \in 1..Len(Cases[c].models) |-> 0]
        /\ v = IF Has(Cases[c], "err") THEN "the run ended without a result" ELSE "ok"
Next == /\ v = "ok"
        /\ i < Len(Case.ev)
        /\ i' = i + 1
        /\ LET e == Case.ev[i + 1] IN
           /\ v' = EventVerdict(Case, e, i + 1)
           /\ shown' = IF Has(e, "held") THEN [m \in DOMAIN shown |-> e.held[m][1]] ELSE shown
           \* a rebuilt model may start over; then it shows nothing
           /\ done' = IF e.op = "train" /\ ~Has(e, "err") THEN [done EXCEPT ![e.m] = i + 1]
                      ELSE IF e.op = "build" /\ Has(e, "held") /\ e.held[e.m][1] = -1 THEN [done EXCEPT ![e.m] = 0]
                      ELSE done
        /\ c' = c
Spec == Init /\ [][Next]_vars

Judge == IF v = "ok" THEN (i = Len(Case.ev) => PrintT(<<"DONE", Case.id, i>>))
         ELSE PrintT(<<IF IsSkip(v) THEN "SKIP" ELSE "FAIL", Case.id, v>>) /\ (~IsSkip(v) \/ PrintT(<<"DONE", Case.id, i>>))
=============================================================================
