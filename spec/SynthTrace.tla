----------------------------- MODULE SynthTrace -----------------------------
(***************************************************************************)
(* Synthetic data (C32).  A case is one request (shape N, ranks, level)    *)
(* answered for several seeds; D0 is the array for noise level 0 and D1    *)
(* for the given level from the same seed.  Where the run showed the       *)
(* factors it used (fac, core), the low-rank part must be theirs.          *)
(***************************************************************************)
EXTENDS TraceLanes, FxAlg
Eps == FPow(1, -3)          \* 1e-12
RankEps == FPow(100, -3)    \* 1e-10 of the trace
MinI(a, b) == IF a < b THEN a ELSE b
RankOf(T, m) ==
  LET big == MaxAbs(T)
      U == Unfold(IF big = FZero THEN T ELSE DivBy(T, big), m)      \* small entries would be lost in fixed point
      G == IF U.s[1] < U.s[2] THEN MatMul(U, Transpose(U)) ELSE Gram(U)
  IN  CountAbove(G, FMul(RankEps, Trace(G)))
\* the largest rank the mode-m unfolding can have
Full(c, m) ==
  LET n == c.N[m]
      o == Prod(c.N) \div n
      e == [k \in 1..Len(c.N) |-> IF c.kind = "cp" THEN c.R ELSE MinI(c.ranks[k], c.N[k])]
      r == IF c.kind = "cp" THEN c.R ELSE MinI(e[m], Prod(e) \div e[m])
  IN  MinI(r, MinI(n, o))
NonNeg(T) == \A k \in 1..Len(T.d) : T.d[k][1] \in {0, 1}
Denoted(c, r) == IF c.kind = "cp" THEN Kruskal(r.fac, [k \in 1..r.fac[1].s[2] |-> FOne]) ELSE Tucker(r.core, r.fac)
Columns(c, r) == \A m \in 1..Len(c.N) : r.fac[m].s = <<c.N[m], IF c.kind = "cp" THEN c.R ELSE c.ranks[m]>>
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Verdict(c) ==
  IF Has(c, "err") THEN "generating raised " \o c.err
  ELSE LET K == 1..Len(c.runs) IN
  IF \E k \in K : c.runs[k].D0.s # c.N \/ c.runs[k].D1.s # c.N THEN "the array has another shape"
  ELSE IF \E k \in K : ~Finite(c.runs[k].D0) \/ ~Finite(c.runs[k].D1) THEN "the array is not finite"
  ELSE IF \E k \in K : ~NonNeg(c.runs[k].D0) THEN "the noiseless tensor has a negative entry"
  ELSE IF \E k \in K : \E n \in 1..Len(c.runs[k].D0.d) : FLt(FAdd(c.runs[k].D1.d[n], Eps), c.runs[k].D0.d[n]) THEN "the noise is negative somewhere"
  ELSE IF c.loud /\ \A k \in K : \A n \in 1..Len(c.runs[k].D0.d) : c.runs[k].D1.d[n] = c.runs[k].D0.d[n] THEN "there is no noise at a positive level"
  ELSE IF \E k \in K : \E m \in 1..Len(c.N) : RankOf(c.runs[k].D0, m) > Full(c, m) THEN "the noiseless tensor exceeds the requested rank"
  ELSE IF \E m \in 1..Len(c.N) : MaxOf({ RankOf(c.runs[k].D0, m) : k \in K }) < Full(c, m) THEN "the noiseless tensor never reaches the requested rank"
  ELSE IF \E k \in K : Has(c.runs[k], "fac") /\ ~Columns(c, c.runs[k]) THEN "the factors have another number of rows or columns"
  ELSE IF \E k \in K : Has(c.runs[k], "fac") /\ (\E m \in 1..Len(c.N) : ~NonNeg(c.runs[k].fac[m])) THEN "a factor has a negative entry"
  ELSE IF \E k \in K : Has(c.runs[k], "fac") /\ ~NearT(c.runs[k].D0, Denoted(c, c.runs[k]), FPow(1000, -2), FOne) THEN "the noiseless tensor is not the one its factors denote"
  ELSE "ok"
Judge == Report(Cases[pos], Verdict(Cases[pos]))
=============================================================================
