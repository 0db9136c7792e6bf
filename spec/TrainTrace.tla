----------------------------- MODULE TrainTrace -----------------------------
(***************************************************************************)
(* Checks recorded training runs step by step (C12 CP-ALS, C13 NCP, C14    *)
(* NTucker, C15 HOSVD, C16 HOOI, C17 non-negativity).  A case holds the    *)
(* data X, the initial factors and, for each step, the factors, core,      *)
(* weights and reconstruction the real code showed.  The specification     *)
(* keeps the hidden state (extrapolated points, accepted points, momentum, *)
(* Lipschitz constants, reference objective) itself; after each step its   *)
(* factors are those the code showed, so rounding does not accumulate.     *)
(***************************************************************************)
EXTENDS Algo, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c,     \* number of the case
          k,     \* steps consumed
          h,     \* hidden state
          v      \* verdict so far: "ok", "skip:...", or the violated clause
vars == <<c, k, h, v>>
Has(r, f) == f \in DOMAIN r
Case == Cases[c]
IsSkip(x) == Len(x) > 4 /\ SubSeq(x, 1, 5) = "skip:"

\* first verdict that is not "ok" among F(1) .. F(n)
FirstBad(n, F(_)) == LET RECURSIVE G(_)
                         G(i) == IF i > n THEN "ok" ELSE LET x == F(i) IN IF x # "ok" THEN x ELSE G(i + 1)
                     IN G(1)
RECURSIVE First(_, _)
First(q, i) == IF i > Len(q) THEN "ok" ELSE IF q[i] # "ok" THEN q[i] ELSE First(q, i + 1)

\* data of step j: the recorded data times the scale in force
XOf(r, j) == IF Has(r, "cs") /\ r.cs[j] # FOne THEN Scale(r.X, r.cs[j]) ELSE r.X

ShapesOk(r, st) ==
  /\ Len(st.fac) = Len(r.X.s)
  /\ \A i \in 1..Len(r.X.s) : st.fac[i].s = <<r.X.s[i], r.ranks[i]>>
FiniteAll(st) ==
  /\ \A i \in 1..Len(st.fac) : Finite(st.fac[i])
  /\ Finite(st.full)
  /\ (Has(st, "core") => Finite(st.core))
  /\ (Has(st, "lam") => Finite(st.lam))
NonNeg(T) == \A n \in 1..Len(T.d) : T.d[n][1] \in {0, 1}

\* previous factors: those of step j-1, or the initial ones (<<>> if unknown)
Prev(r, j) == IF j > 1 THEN r.S[j - 1].fac ELSE IF Has(r, "init") THEN r.init ELSE <<>>

\* --- CP-ALS ---------------------------------------------------------------
CpMode(r, j, m) ==
  LET st == r.S[j] X == XOf(r, j) old == Prev(r, j) IN
  IF old = <<>> /\ m < Len(X.s) THEN "ok"
  ELSE LET A == IF old = <<>> THEN st.fac ELSE Mixed(st.fac, old, m)
           ls == CpLS(X, A, m)
       IN  IF m = Len(X.s) /\ ~CpNormalOk(X, A, m, st.fac[m], st.lam.d) THEN "CP: the last factor and the weights do not satisfy the normal equations"
           ELSE IF ~ls.ok THEN (IF PrintT(<<"NOTE", r.id, "ill-conditioned mode not judged">>) THEN "ok" ELSE "ok")
           ELSE IF ~CpFactorOk(ls, st.fac[m]) THEN "CP: a factor is not the least-squares update in Gauss-Seidel order"
           ELSE IF ~CpColMax(ls, st.fac[m]) THEN "CP: the largest entry of a factor column is not one"
           ELSE IF m = Len(X.s) /\ ~CpWeightsOk(ls, st.lam.d) THEN "CP: the weights are not the divisors of the last mode"
           ELSE "ok"
CpRecon(st) ==
  LET P == Kruskal(st.fac, st.lam.d)
      mx == [i \in 1..Len(st.fac) |-> MaxAbs(st.fac[i])]
      b == FMul(E6(10), FMul(FInt(Len(st.lam.d)), FMul(MaxAbs(st.lam), FProd(mx))))
  IN  IF WithinT(P, st.full, FAdd(b, E6(1))) THEN "ok" ELSE "CP: weights and factors do not give the reconstruction"
CpStep(r, j) ==
  LET st == r.S[j] IN
  IF Len(st.lam.d) # r.ranks[1] THEN "CP: wrong number of weights"
  ELSE First(<<FirstBad(Len(r.X.s), LAMBDA m : CpMode(r, j, m)), CpRecon(st)>>, 1)

\* --- non-negative models --------------------------------------------------
\* hidden state: M extrapolated factors, B accepted factors, gM / gB the same for the
\* core, t momentum, L previous Lipschitz constants (core last), o reference objective
InitBcu(r) ==
  IF ~Has(r, "init") THEN [known |-> FALSE]
  ELSE LET n == Len(r.init)
           base == [known |-> TRUE, M |-> r.init, B |-> r.init, t |-> FOne, o |-> FZero,
                    L |-> [i \in 1..(n + 1) |-> FOne]]
       IN  IF Has(r, "core0") THEN base @@ [gM |-> r.core0, gB |-> r.core0] ELSE base
InitNormOk(r, T, e) ==
  LET b == FMul(E6(20), FAdd(FOne, Norm(T)))
      x == Norm(XOf(r, 1))
      \* |T|^e = |X| as |T|^(e) by repeated multiplication
      p == FProd([i \in 1..e |-> Norm(T)])
  IN  FLe(FAbs(FSub(p, x)), FMul(E6(100), FAdd(FOne, x)))
InitVerdict(r) ==
  IF r.kind \notin {"ncp", "ntucker"} \/ ~Has(r, "init") THEN "ok"
  ELSE LET n == Len(r.init) e == IF r.kind = "ncp" THEN n ELSE n + 1 IN
       IF \E i \in 1..n : ~Finite(r.init[i]) \/ ~NonNeg(r.init[i]) THEN "a factor does not start finite and non-negative"
       ELSE IF \E i \in 1..n : ~InitNormOk(r, r.init[i], e) THEN "a factor does not start with its share of the data norm"
       ELSE IF Has(r, "core0") /\ (~NonNeg(r.core0) \/ ~InitNormOk(r, r.core0, e)) THEN "the core does not start non-negative with its share of the data norm"
       ELSE "ok"

BcuMode(r, j, m, g, old, L) ==
  LET st == r.S[j] X == XOf(r, j)
      A == Mixed(st.fac, old, m)
      ncp == r.kind = "ncp"
      B == IF ncp THEN <<>> ELSE TuckerB(g, A, m)
      V == IF ncp THEN GramHad(A, m) ELSE MatMul(B, Transpose(B))
      K == IF ncp THEN Mttkrp(X, A, m) ELSE MatMul(Unfold(X, m), Transpose(B))
      P == h.M[m]
      E == BcuFactor(P, V, K, L[m])
  IN  IF FLe(L[m], E6(1)) THEN "skip: vanishing Lipschitz constant"
      ELSE IF ~WithinT(E, st.fac[m], BcuBound(P, V, K, L[m]))
           THEN "a factor is not the projected gradient step from the extrapolated point"
      ELSE "ok"
BcuL(r, j, g, old, m) ==
  LET st == r.S[j] A == Mixed(st.fac, old, m) IN
  IF r.kind = "ncp" THEN LMax(GramHad(A, m))
  ELSE LET B == TuckerB(g, A, m) IN LMax(MatMul(B, Transpose(B)))
CoreVerdict(r, j, old, Lg) ==
  LET st == r.S[j] X == XOf(r, j) G == CoreGrams(old)
      Bs == Ttm(h.gM, G, All(Len(old)))
      P == Project(X, old)
      E == Relu(SubT(h.gM, DivBy(SubT(Bs, P), Lg)))
      b == FMul(E6(10), FAdd(MaxAbs(h.gM), FDiv(FAdd(FMul(FProd([i \in 1..Len(G) |-> FMul(FInt(G[i].s[1]), MaxAbs(G[i]))]), MaxAbs(h.gM)),
                                                      FAdd(MaxAbs(P), MaxAbs(Bs))), Lg)))
  IN  IF FLe(Lg, E6(1)) THEN "skip: vanishing Lipschitz constant"
      ELSE IF ~WithinT(E, st.core, b) THEN "the core is not the projected gradient step from the extrapolated point"
      ELSE "ok"
\* result: [v verdict, h next hidden state]
BcuStep(r, j) ==
  LET st == r.S[j] X == XOf(r, j) old == Prev(r, j) n == Len(X.s)
      nt == r.kind = "ntucker"
      Lg == IF nt THEN FProd([i \in 1..n |-> LMax(Gram(old[i]))]) ELSE FOne
      L == TLCEval([m \in 1..n |-> BcuL(r, j, IF nt THEN st.core ELSE X, old, m)])
      v0 == IF nt THEN CoreVerdict(r, j, old, Lg) ELSE "ok"
      v1 == IF v0 # "ok" THEN v0 ELSE FirstBad(n, LAMBDA m : BcuMode(r, j, m, IF nt THEN st.core ELSE X, old, L))
      o == Objective(st.full, X)
      ref == IF j = 1 THEN FAdd(o, FOne) ELSE h.o
      border == j > 1 /\ FLe(FAbs(FSub(o, ref)), FMul(E6(20), ref))     \* the first step is always accepted
      t == NextT(h.t)
      acc == FLt(o, ref)
      LL == Append(L, Lg)
      wt == [i \in 1..(n + 1) |-> Weight(h.t, t, h.L[i], LL[i])]
      h1 == [known |-> TRUE,
             M |-> TLCEval([m \in 1..n |-> IF acc THEN Extrapolate(st.fac[m], h.B[m], wt[m]) ELSE h.B[m]]),
             B |-> IF acc THEN st.fac ELSE h.B,
             t |-> IF acc THEN t ELSE h.t,
             o |-> IF acc THEN o ELSE ref,
             L |-> LL]
      h2 == IF nt THEN h1 @@ [gM |-> IF acc THEN Extrapolate(st.core, h.gB, wt[n + 1]) ELSE h.gB,
                              gB |-> IF acc THEN st.core ELSE h.gB]
            ELSE h1
  IN  IF v1 # "ok" THEN [v |-> v1, h |-> h]
      ELSE IF border THEN [v |-> "skip: objective too close to the reference to tell acceptance", h |-> h]
      ELSE IF ~acc /\ PrintT(<<"NOTE", r.id, "step rejected, extrapolation from the last accepted point">>) THEN [v |-> "ok", h |-> h2]
      ELSE [v |-> "ok", h |-> h2]
BcuRecon(r, st) ==
  LET nc == r.kind = "ncp"
      P == IF nc THEN Kruskal(st.fac, IF Has(st, "lam") /\ Len(st.lam.d) = r.ranks[1] THEN st.lam.d
                                      ELSE [i \in 1..r.ranks[1] |-> FOne]) ELSE Tucker(st.core, st.fac)
      b == FMul(E6(20), FAdd(FOne, MaxAbs(P)))
  IN  IF WithinT(P, st.full, b) THEN "ok" ELSE "factors (and core) do not give the reconstruction"

\* --- HOSVD and HOOI -------------------------------------------------------
DELTA == E6(20)
HosvdStep(r) ==
  LET st == r.S[1] X == r.X n == Len(X.s)
      v1 == FirstBad(n, LAMBDA m : Leading(st.fac[m], Unfold(X, m), DELTA))
  IN  IF v1 # "ok" THEN v1 ELSE First(<<
       IF WithinT(Project(X, st.fac), st.core, FMul(E6(20), FAdd(E6(1000), Norm(X)))) THEN "ok" ELSE "the core is not the data times the transposed factors",
       IF WithinT(Tucker(st.core, st.fac), st.full, FMul(E6(20), FAdd(E6(1000), Norm(X)))) THEN "ok" ELSE "the full tensor is not the expanded core",
       IF r.ranks = X.s => WithinT(X, st.full, FMul(E6(20), FAdd(E6(1000), Norm(X)))) THEN "ok" ELSE "full ranks do not reproduce the data">>, 1)
HooiStep(r, j) ==
  LET st == r.S[j] X == XOf(r, j) n == Len(X.s) old == Prev(r, j)
      v1 == IF old = <<>> THEN Leading(st.fac[n], Unfold(ProjectBut(X, st.fac, n), n), DELTA)
            ELSE FirstBad(n, LAMBDA m : Leading(st.fac[m], Unfold(ProjectBut(X, Mixed(st.fac, old, m), m), m), DELTA))
  IN  IF v1 # "ok" THEN v1 ELSE First(<<
       IF WithinT(Project(X, st.fac), st.core, FMul(E6(20), FAdd(E6(1000), Norm(X)))) THEN "ok" ELSE "the core is not the data times the transposed factors",
       IF WithinT(Tucker(st.core, st.fac), st.full, FMul(E6(20), FAdd(E6(1000), Norm(X)))) THEN "ok" ELSE "the full tensor is not the expanded core",
       IF j > 1 /\ ~Has(r, "cs") => FLe(Norm(SubT(st.full, X)), FAdd(Norm(SubT(r.S[j - 1].full, X)), FMul(E6(20), Norm(X))))
       THEN "ok" ELSE "the residual grew from one step to the next">>, 1)
HooiInit(r) == IF ~Has(r, "init") THEN "ok"
               ELSE FirstBad(Len(r.X.s), LAMBDA m : Leading(r.init[m], Unfold(XOf(r, 1), m), DELTA))

\* --- non-negativity (C17) -------------------------------------------------
NonNegStep(st) ==
  IF \E i \in 1..Len(st.fac) : ~Finite(st.fac[i]) THEN "a factor entry is not finite"
  ELSE IF \E i \in 1..Len(st.fac) : ~NonNeg(st.fac[i]) THEN "a factor entry is negative"
  ELSE IF Has(st, "core") /\ ~(Finite(st.core) /\ NonNeg(st.core)) THEN "a core entry is negative or not finite"
  ELSE IF Has(st, "lam") /\ ~(Finite(st.lam) /\ NonNeg(st.lam)) THEN "a weight is negative or not finite"
  ELSE IF ~(Finite(st.full) /\ NonNeg(st.full)) THEN "an entry of the reconstruction is negative or not finite"
  ELSE "ok"

\* --- the machine ----------------------------------------------------------
Ready(r, j) == \* the step was recorded completely
  LET st == r.S[j] IN Has(st, "fac") /\ Has(st, "full") /\ ShapesOk(r, st)
StepResult(r, j) ==
  LET st == r.S[j] IN
  IF Has(st, "err") THEN [v |-> "training raised an error", h |-> h]
  ELSE IF ~(Has(st, "fac") /\ Has(st, "full")) THEN [v |-> "training left no factors or no reconstruction", h |-> h]
  ELSE IF r.kind \in {"ntucker", "hosvd", "hooi"} /\ ~(Has(st, "core") /\ st.core.s = r.ranks) THEN [v |-> "training left no core of the requested ranks", h |-> h]
  ELSE IF r.kind = "cp" /\ ~Has(st, "lam") THEN [v |-> "training left no weights", h |-> h]
  ELSE IF ~ShapesOk(r, st) THEN [v |-> "a factor has the wrong shape", h |-> h]
  ELSE IF st.full.s # r.X.s THEN [v |-> "the reconstruction has the wrong shape", h |-> h]
  ELSE IF r.check = "nonneg" THEN [v |-> NonNegStep(st), h |-> h]
  ELSE IF ~FiniteAll(st) THEN [v |-> IF r.kind = "cp" THEN "skip: not finite" ELSE "an entry is not finite", h |-> h]
  ELSE IF r.kind = "cp" THEN [v |-> CpStep(r, j), h |-> h]
  ELSE IF r.kind = "hosvd" THEN [v |-> HosvdStep(r), h |-> h]
  ELSE IF r.kind = "hooi" THEN [v |-> HooiStep(r, j), h |-> h]
  ELSE IF ~h.known THEN [v |-> "skip: initial factors not identified", h |-> h]
  ELSE LET b == BcuStep(r, j) IN
       IF b.v = "ok" THEN [v |-> BcuRecon(r, st), h |-> b.h] ELSE b

Init == /\ c \in 1..Len(Cases)
        /\ k = 0
        /\ h = IF Cases[c].kind \in {"ncp", "ntucker"} THEN InitBcu(Cases[c]) ELSE [known |-> FALSE]
        /\ v = IF Cases[c].check = "nonneg" THEN "ok"
               ELSE IF Cases[c].kind = "hooi" THEN HooiInit(Cases[c]) ELSE InitVerdict(Cases[c])
Step == /\ v = "ok"
        /\ k < Len(Case.S)
        /\ k' = k + 1
        /\ LET s == StepResult(Case, k + 1) IN v' = s.v /\ h' = s.h
        /\ c' = c
Next == Step
Spec == Init /\ [][Next]_vars

\* reported once per case: the first violated clause, or how far it could be checked
Judge == IF v = "ok" THEN (k = Len(Case.S) => PrintT(<<"DONE", Case.id, k>>))
         ELSE PrintT(<<IF IsSkip(v) THEN "SKIP" ELSE "FAIL", Case.id, v>>) /\ (~IsSkip(v) \/ PrintT(<<"DONE", Case.id, k>>))
=============================================================================
