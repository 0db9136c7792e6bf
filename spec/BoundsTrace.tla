----------------------------- MODULE BoundsTrace -----------------------------
(***************************************************************************)
(* Error bounds and descent (C34), and behaviour under change of units and *)
(* labels (C35), of recorded trainings on one tensor X.  Errors are        *)
(* squared and relative to the squared norm of X throughout.               *)
(***************************************************************************)
EXTENDS Algo, TraceLanes

If(b, x) == IF b THEN "ok" ELSE x
RECURSIVE FirstOk(_, _)
FirstOk(q, n) == IF n > Len(q) THEN "ok" ELSE IF q[n] # "ok" THEN q[n] ELSE FirstOk(q, n + 1)
\* first verdict other than "ok" among F(k) .. F(n)
AllOk(n, k, F(_)) == LET RECURSIVE G(_)
                         G(i) == IF i > n THEN "ok" ELSE LET x == F(i) IN IF x # "ok" THEN x ELSE G(i + 1)
                     IN G(k)

Err2(P, X) == FDiv(Norm2(SubT(P, X)), Norm2(X))
Kept(m, U, X) == FDiv(Norm2(MatMul(Transpose(U), Unfold(X, m))), Norm2(X))
TOL == E6(20)

\* --- C34 ------------------------------------------------------------------
\* a projection: error = |X|^2 - |core|^2, at most the energies outside the factors together
Projection(X, t) ==
  LET e == Err2(t.full, X)
      g == FDiv(Norm2(t.core), Norm2(X))
      out == FSum([m \in 1..Len(X.s) |-> FSub(FOne, Kept(m, t.fac[m], X))])
  IN  FirstOk(<<If(FLe(FAbs(FSub(FAdd(e, g), FOne)), TOL), "the squared error is not what the core leaves of the squared norm"),
                If(FLe(e, FAdd(out, TOL)), "the error exceeds the energy outside the factors")>>, 1)
Grows(X, t, tol) ==
  AllOk(Len(t.steps), 2, LAMBDA j :
    If(FLe(Err2(t.steps[j], X), FAdd(Err2(t.steps[j - 1], X), tol)), "the residual grew from one step to the next"))
\* condition of the systems that step j of ALS solved
Cond(A, m, most) ==
  LET V == GramHad(A, m)
      iv == Inverse(V)
  IN  iv.ok /\ FLe(FMul(FInt(V.s[1]), FMul(MaxAbs(V), MaxAbs(iv.X))), FInt(most))
CpCond(t, j, m, most) == Cond(Mixed(t.facs[j], t.facs[j - 1], m), m, most)
CpGrows(X, t) ==
  AllOk(Len(t.steps), 2, LAMBDA j :
    LET rise == FSub(Err2(t.steps[j], X), Err2(t.steps[j - 1], X))
        calm(most) == \A m \in 1..Len(X.s) : CpCond(t, j, m, most)
    IN  If(FLe(rise, E6(2)) \/ ~calm(IF FLe(rise, TOL) THEN 300 ELSE 10000), "the residual of CP grew from one step to the next"))
Complete(t, want) == ~Has(t, "err") /\ \A f \in want : Has(t, f)
AllFinite(q) == \A m \in 1..Len(q) : Finite(q[m])
Right(X, t) ==
  /\ t.full.s = X.s /\ Finite(t.full)
  /\ (t.kind = "cp" => /\ Len(t.facs) = Len(t.steps)
                       /\ \A j \in 1..Len(t.facs) : Len(t.facs[j]) = Len(X.s) /\ AllFinite(t.facs[j]))
  /\ (t.kind # "cp" => /\ Has(t, "core") /\ Finite(t.core) /\ Len(t.fac) = Len(X.s)
                       /\ \A m \in 1..Len(X.s) : t.fac[m].s[1] = X.s[m] /\ Finite(t.fac[m]))
  /\ (Has(t, "steps") => \A j \in 1..Len(t.steps) : Finite(t.steps[j]) /\ t.steps[j].s = X.s)
OneFit(X, t) ==
  IF ~Complete(t, {"full", "fac"} \cup (IF t.kind = "cp" THEN {"facs", "steps"} ELSE IF t.kind = "hooi" THEN {"core", "steps"} ELSE {"core"}))
    THEN "a training raised an error or left no result"
  ELSE IF ~Right(X, t) THEN (IF t.kind = "cp" THEN "ok" ELSE "a result is not finite or has the wrong shape")
  ELSE IF t.kind = "cp" THEN CpGrows(X, t)
  ELSE FirstOk(<<Projection(X, t), IF t.kind = "hooi" THEN Grows(X, t, E6(10)) ELSE "ok">>, 1)
Nested(p, q) == \A m \in 1..Len(p) : p[m] <= q[m]
Pair(X, a, b) ==
  IF {a.kind, b.kind} \subseteq {"hosvd"} /\ Nested(a.ranks, b.ranks)
    THEN If(FLe(Err2(b.full, X), FAdd(Err2(a.full, X), TOL)), "larger ranks gave a larger HOSVD error")
  ELSE IF a.kind = "hosvd" /\ b.kind = "hooi" /\ a.ranks = b.ranks
    THEN FirstOk(<<If(FLe(Err2(b.steps[1], X), FAdd(Err2(a.full, X), TOL)), "the first HOOI step is worse than HOSVD"),
                   If(FLe(Err2(b.full, X), FAdd(Err2(a.full, X), TOL)), "HOOI is worse than HOSVD"),
                   If(FLe(Err2(a.full, X), FAdd(FMul(FInt(Len(X.s)), Err2(b.full, X)), TOL)), "HOSVD is farther from HOOI than its bound allows")>>, 1)
  ELSE "ok"
Bounds(c) ==
  LET n == Len(c.runs)
      v == AllOk(n, 1, LAMBDA i : OneFit(c.X, c.runs[i]))
  IN  IF v # "ok" THEN v
      ELSE AllOk(n, 1, LAMBDA i : AllOk(n, 1, LAMBDA j :
             IF i = j \/ "cp" \in {c.runs[i].kind, c.runs[j].kind} THEN "ok" ELSE Pair(c.X, c.runs[i], c.runs[j])))

\* --- C35 ------------------------------------------------------------------
\* the first run decomposes X; run k decomposes X times by (units), with the indices of the modes relabelled by
\* perm (perm[m][i] is the old index of new index i) and, for HOSVD, the modes in order modes
Moved(T, perm, modes) ==
  LET N == Len(T.s)
      place == [m \in 1..N |-> CHOOSE k \in 1..N : modes[k] = m]
  IN  Tab([k \in 1..N |-> T.s[modes[k]]], LAMBDA ix : At(T, [m \in 1..N |-> perm[m][ix[place[m]] + 1]]))
\* the subspaces are determined by the data: a gap below the last Ritz value of each mode
Gap(X, t) ==
  \A m \in 1..Len(X.s) :
    LET Y == IF t.kind = "hosvd" THEN Unfold(X, m) ELSE Unfold(ProjectBut(X, t.fac, m), m)
        S == MatMul(Y, Transpose(Y))
        U == t.fac[m]
        r == U.s[2]
        d == M(MatMul(Transpose(U), MatMul(S, U)), r - 1, r - 1)
    IN  \/ r = U.s[1]
        \/ FLe(FSub(Trace(S), Trace(MatMul(Transpose(U), MatMul(S, U)))), FMul(E6(1), Trace(S)))
        \/ CountAbove(S, FSub(d, FMul(E6(20000), Trace(S)))) <= r
CpCalm(X, t) ==
  LET n == Len(X.s) IN
  /\ Len(t.facs) > 0 /\ \A j \in 1..Len(t.facs) : Len(t.facs[j]) = n /\ AllFinite(t.facs[j])
  /\ Cond(t.facs[1], n, 1000)
  /\ \A j \in 2..Len(t.facs) : \A m \in 1..n : CpCond(t, j, m, 1000)
SameFit(c, a, b) ==
  LET want == Scale(Moved(a.full, b.perm, b.modes), b.by)
      tol == E6(IF a.kind \in {"hosvd", "hooi"} THEN 500 ELSE 1000)
      size == FMul(b.by, FAdd(Norm(a.full), Norm(c.X)))
      n == Len(a.hist)
  IN  IF ~Finite(b.full) THEN "a result is not finite"
      ELSE FirstOk(<<
        If(want.s = b.full.s /\ FLe(Norm(SubT(want, b.full)), FMul(tol, size)), "the result does not follow the units or labels of the data"),
        If(Len(b.hist) = n, "the number of steps depends on units or labels"),
        AllOk(IF Len(b.hist) = n THEN n ELSE 0, 1, LAMBDA j :
          IF \E q \in {a.hist[j][1], a.hist[j][2], b.hist[j][1], b.hist[j][2]} : ~PIsFin(q) THEN "a loss or residual is not finite"
          ELSE FirstOk(<<If(FLe(FAbs(FSub(b.hist[j][2], a.hist[j][2])), FMul(FTwo, tol)), "the residuals depend on units or labels"),
                    If(FLe(FAbs(FSub(b.hist[j][1], FMul(b.by, a.hist[j][1]))), FMul(FMul(FTwo, tol), FMul(b.by, FAdd(Norm(c.X), a.hist[j][1])))),
                       "the losses do not follow the units of the data")>>, 1))>>, 1)
Follows(c) ==
  IF \E i \in 1..Len(c.runs) : ~Complete(c.runs[i], {"full", "fac", "hist"} \cup (IF c.runs[i].kind = "cp" THEN {"facs"} ELSE {})) THEN "a training raised an error or left no result"
  ELSE LET a == c.runs[1] IN
       IF a.full.s # c.X.s THEN "a result has the wrong shape"
       ELSE IF ~Finite(a.full) \/ ~AllFinite(a.fac) THEN "skip: not finite"
       ELSE IF a.kind = "cp" /\ ~CpCalm(c.X, a) THEN "skip: ill-conditioned systems"
       ELSE IF a.kind \in {"hosvd", "hooi"} /\ ~Gap(c.X, a) THEN "skip: the subspaces are not determined by the data"
       ELSE AllOk(Len(c.runs), 2, LAMBDA k : SameFit(c, a, c.runs[k]))

Verdict(c) == IF Has(c, "err") THEN "the run ended without a result"
              ELSE IF c.check = "bounds" THEN Bounds(c) ELSE Follows(c)
Judge == Report(Cases[pos], Verdict(Cases[pos]))
=============================================================================
