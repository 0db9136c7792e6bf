---------------------------- MODULE PitfRunTrace ----------------------------
(***************************************************************************)
(* Follows the multipliers y of a PITF training run step by step (C29      *)
(* numpy, C30 TensorFlow).  All entries of the data differ, so that the    *)
(* first multipliers, delta times the sampled data, show the sample        *)
(* positions; they are the state of the run, and every further step must   *)
(* use them.  wit holds singular bases of the centred adjoints, which are  *)
(* verified here before they are used; alternative 1 takes the last sample *)
(* of a repeated position, alternative 2 the first.                        *)
(***************************************************************************)
EXTENDS PitfAlg, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, k, spl, v
vars == <<c, k, spl, v>>
Has(r, f) == f \in DOMAIN r
Case == Cases[c]
Np == Case.impl = "np"
Tol == IF Np THEN FPow(10, -2) ELSE FPow(1, -1)        \* 1e-7, 1e-4
N == Prod(Case.n)
M0 == Len(Case.Y[1].d)
Root == FSqrt(FInt(N))
Delta == FDiv(FMul(Case.delt, FInt(Case.num)), Root)
Tau == FMul(Case.tau, Root)
Top == MaxAbs(Case.X)

\* positions shown by the first multipliers
PosOfEntry(x) == { p \in 1..N : FLe(FAbs(FSub(FMul(Delta, Case.X.d[p]), x)), FMul(Tol, FMul(Delta, Top))) }
Decodable == Len(Case.Y[1].d) = Case.num /\ \A i \in 1..Case.num : Cardinality(PosOfEntry(Case.Y[1].d[i])) = 1
Decoded == LET ix == TLCEval([i \in 1..Case.num |-> Idx(Case.n, (CHOOSE p \in PosOfEntry(Case.Y[1].d[i]) : TRUE) - 1)])
           IN  [m \in 1..3 |-> TLCEval([i \in 1..Case.num |-> ix[i][m]])]

E1 == SampleT(Case.X, spl)
\* one of the three matrices of a step, from multipliers y
Mats(y, w, last) ==
  [d \in 1..3 |-> LET A == Adjoint(d - 1, Case.n, spl, y, last) IN
     DivBy(Shrunk(A, w[d].U, w[d].V, Tau, d = 1), RootInt(Case.n[Third(d - 1)]))]
WitOk(y, w, last) == \A d \in 1..3 : SingularBases(Center(Adjoint(d - 1, Case.n, spl, y, last)), w[d].U, w[d].V, FPow(10, -2))
ErrOf(ms) == SubT(E1, SamplePair(ms[1], ms[2], ms[3], Case.n, spl))
Rate(e) == FDiv(Norm(e), Norm(E1))
Rmse(e) == FSqrt(FDiv(Norm2(e), FInt(Case.num)))
NextY(y, e) == ZipWith(Vec(y), e, LAMBDA a, b : FAdd(a, FMul(Delta, b)))
Unit(y) == FMax(FMax(MaxAbs(Vec(y)), FMul(Delta, Top)), FPow(1, -2))
\* clauses of step j (multipliers before it: y), for one choice of repeated positions
NearAbs(a, b, sc) == PIsFin(a) /\ FLe(FAbs(FSub(a, b)), FAdd(FMul(Tol, FMax(FAbs(b), sc)), FPow(2, -2)))
Lines(j) == { i \in 1..Len(Case.lines) : Case.lines[i].step = j }
Sums(j) == { i \in 1..Len(Case.sums) : Case.sums[i].step = j }
StepClause(j, y, alt) ==
  LET w == Case.wit[j][alt] last == alt = 1
      ms == Mats(y, w, last)
      e == ErrOf(ms)
      sc == FDiv(Unit(y), FMul(Delta, Norm(E1)))
      yn == NextY(y, e)
      now == Case.Y[j].d
  IN IF ~WitOk(y, w, last) THEN "skip: no singular bases at hand"
     ELSE IF Len(now) # Case.num \/ ~Finite(Case.Y[j]) THEN "the multipliers have another length or are not finite"
     ELSE IF \E i \in 1..Case.num : ~FLe(FAbs(FSub(now[i], yn.d[i])), FMul(Tol, FMax(Unit(y), Unit(now)))) THEN "the next multipliers are not y + delta e of the run's sample"
     ELSE IF \E i \in Lines(j) : ~NearAbs(Case.lines[i].rate, Rate(e), sc) \/ ~NearAbs(Case.lines[i].rmse, Rmse(e), FMul(sc, Top)) THEN "the reported error rate or RMSE is not that of the step"
     ELSE IF \E i \in Sums(j) : ~NearAbs(Case.sums[i].rate, Rate(e), sc) \/ ~NearAbs(Case.sums[i].rmse, Rmse(e), FMul(sc, Top)) THEN "the summary record is not that of the step"
     ELSE IF Has(Case, "E") /\ (~NearAbs(Case.E[j], Rate(e), sc) \/ ~NearAbs(Case.R[j], Rmse(e), FMul(sc, Top))) THEN "a returned error rate or RMSE is not that of its iteration"
     ELSE IF Has(Case, "mats") /\ j = Len(Case.Y) /\ (\E d \in 1..3 : ~NearT(Case.mats[d], ms[d], Tol, Unit(y))) THEN "the returned matrices are not the shrunken adjoints"
     ELSE "ok"
Before(j) == IF j = 1 THEN [i \in 1..Case.num |-> FZero] ELSE Case.Y[j - 1].d
StepVerdict(j) ==
  LET a == StepClause(j, Before(j), 1) IN
  IF a = "ok" \/ Np THEN a
  ELSE LET b == StepClause(j, Before(j), 2) IN IF b = "ok" THEN b ELSE a

Shape(cs) ==
  IF Has(cs, "err") THEN "training raised " \o cs.err
  ELSE IF Len(cs.Y) # cs.steps THEN "the run does not show one update per step"
  ELSE IF Has(cs, "It") /\ (cs.It # [i \in 1..cs.steps |-> i - 1] \/ Len(cs.E) # cs.steps \/ Len(cs.R) # cs.steps) THEN "there is not one returned record per iteration"
  ELSE IF Has(cs, "start") /\ (\E i \in 1..Len(cs.start.d) : cs.start.d[i] # FZero) THEN "training does not start from zero"
  ELSE IF ~Has(cs, "E") /\ cs.lines = <<>> THEN "nothing is reported"
  ELSE "ok"
Init == /\ c \in 1..Len(Cases) /\ k = 0 /\ spl = <<>> /\ v = Shape(Cases[c])
Next == /\ v = "ok" /\ k <= Len(Case.Y) /\ c' = c /\ k' = k + 1
        /\ IF k = 0
           THEN /\ v' = IF Decodable THEN "ok" ELSE "the first multipliers are not delta times entries of the data"
                /\ spl' = IF Decodable THEN Decoded ELSE <<>>
           ELSE /\ v' = StepVerdict(k) /\ spl' = spl
Judge == IF v = "ok" THEN (k = Len(Case.Y) + 1 => PrintT(<<"DONE", Case.id, k>>))
         ELSE PrintT(<<IF SubSeq(v, 1, 4) = "skip" THEN "SKIP" ELSE "FAIL", Case.id, v>>)
=============================================================================
