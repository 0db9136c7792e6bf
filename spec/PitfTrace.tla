----------------------------- MODULE PitfTrace -----------------------------
(***************************************************************************)
(* Judges recorded calls of the PITF operators (C25..C28, C31), in the     *)
(* numpy and the TensorFlow version, against PitfAlg.                      *)
(***************************************************************************)
EXTENDS TraceLanes, PitfAlg
Double(c) == c.impl = "np" \/ (Has(c, "dt") /\ c.dt = "float64")
Tol(c) == IF Double(c) THEN FPow(10, -3) ELSE FPow(1, -1)      \* 1e-11, 1e-4
\* one division, two additions
SampleTol(c) == IF Double(c) THEN FPow(10, -3) ELSE FPow(100, -2)      \* 1e-11, 1e-6
Shaped(o, s) == o.s = s /\ Len(o.d) = Prod(s) /\ Finite(o)
Same(c, o, E) == NearT(o, E, Tol(c), FOne)

NearAll(o, tol, E) == \A i \in 1..Len(E.d) : FLe(FAbs(FSub(o.d[i], E.d[i])), FAdd(FMul(tol, FAbs(E.d[i])), FPow(100, -4)))
VSample(c) ==
  LET n == c.n m == Len(c.spl[1]) IN
  IF c.refuse THEN IF c.raised = "ValueError" THEN "ok" ELSE "an unknown selector was not refused with ValueError"
  ELSE IF ~Shaped(c.tensor, <<m>>) \/ c.tensor.d # SampleT(c.T, c.spl).d THEN "the tensor sample is not the listed entries"
  ELSE IF \E d \in 0..2 : ~Shaped(c.mats[d + 1], <<m>>) \/ ~NearAll(c.mats[d + 1], SampleTol(c), SampleM(d, c.M[d + 1], n, c.spl))
       THEN "a matrix sample is not the listed entries over the root of the third size"
  ELSE IF ~Shaped(c.pair, <<m>>) \/ ~NearT(c.pair, SamplePair(c.M[1], c.M[2], c.M[3], n, c.spl), SampleTol(c), FMax(MaxAbs(c.M[1]), FMax(MaxAbs(c.M[2]), MaxAbs(c.M[3])))) THEN "the pair sample is not the sum of the three samples"
  ELSE "ok"

AdjOk(c, d) ==
  LET o == c.out[d + 1] n == c.n IN
  /\ Shaped(o, <<n[RowMode(d)], n[ColMode(d)]>>)
  /\ \A p \in 0..(n[RowMode(d)] - 1), q \in 0..(n[ColMode(d)] - 1) :
       LET S == AtPos(d, c.spl, p, q) x == M(o, p, q) IN
       IF S = {} THEN x = FZero
       ELSE IF c.impl = "np" THEN x = c.vec.d[LastOf(S)]
       ELSE \E i \in S : x = c.vec.d[i]      \* copied, so exact
VAdjoint(c) ==
  IF c.refuse THEN IF c.raised = "ValueError" THEN "ok" ELSE "an unknown selector was not refused"
  ELSE IF \E d \in 0..2 : ~AdjOk(c, d) THEN "the adjoint does not hold the samples at their positions and zero elsewhere" ELSE "ok"

VShrink(c) ==
  LET A == c.A C == Center(A) k == MinI(A.s[1], A.s[2]) t == Tol(c) IN
  IF ~Shaped(c.center, A.s) \/ ~Same(c, c.center, C) THEN "centring does not subtract the column means"
  ELSE IF ~Finite(c.U) \/ ~Finite(c.V) \/ ~SingularBases(C, c.U, c.V, t) THEN "the bases are not matching singular bases of the centred matrix"
  ELSE IF ~Shaped(c.sv, <<k>>) \/ ~NearT(c.sv, Vec(Lowered(C, c.U, c.V, c.tau)), FMul(FInt(4), t), FOne)
       THEN "the values are not the singular values lowered by tau and cut at zero"
  ELSE IF ~Shaped(c.normal, A.s) \/ ~NearT(c.normal, Shrunk(A, c.U, c.V, c.tau, FALSE), FMul(FInt(8), t), FMax(FOne, MaxAbs(A))) THEN "shrinkage does not rebuild the thresholded matrix"
  ELSE IF ~Shaped(c.compl, A.s) \/ ~NearT(c.compl, Shrunk(A, c.U, c.V, c.tau, TRUE), FMul(FInt(8), t), FMax(FOne, MaxAbs(A)))
       THEN "complicated shrinkage does not add the soft-thresholded mean part"
  ELSE "ok"

\* --- random factors and samples -----------------------------------------
RankOf(A) ==
  LET G == IF A.s[1] < A.s[2] THEN MatMul(A, Transpose(A)) ELSE Gram(A)
  IN  CountAbove(G, FMax(FPow(10, -3), FMul(FPow(10, -2), Trace(G))))      \* 1e-7 of the trace, at least 1e-11
ColsEven(A) ==  \* all column sums agree
  \A j \in 0..(A.s[2] - 1) : Within(ColSum(A, j), ColSum(A, 0), FPow(10, -1), FMul(FInt(A.s[1]), Scale1(A)))
ColsZero(A) == \A j \in 0..(A.s[2] - 1) : Within(ColSum(A, j), FZero, FPow(10, -1), FMul(FInt(A.s[1]), Scale1(A)))
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Reach(r, s) == MinI(r, MinI(s[1] - 1, s[2]))
FactorShape(n, d) == <<n[RowMode(d)], n[ColMode(d)]>>
VFactors(c) ==
  LET n == c.n K == 1..Len(c.runs) F(k, d) == c.runs[k].m[d + 1] IN
  IF \E k \in K, d \in 0..2 : ~Shaped(F(k, d), FactorShape(n, d)) THEN "a generated matrix has another shape"
  ELSE IF \E k \in K, d \in 1..2 : ~ColsZero(F(k, d)) THEN "a column sum of B or C is not zero"
  ELSE IF \E k \in K : ~ColsEven(F(k, 0)) THEN "the column sums of A differ"
  ELSE IF \E k \in K, d \in 0..2 : RankOf(F(k, d)) > c.r[d + 1] + (IF d = 0 THEN 1 ELSE 0) THEN "a matrix exceeds its requested rank"
  ELSE IF \E d \in 0..2 : MaxOf({ RankOf(F(k, d)) : k \in K }) < Reach(c.r[d + 1], FactorShape(n, d)) THEN "a matrix never reaches its requested rank"
  ELSE IF \E k \in K : ~Shaped(c.runs[k].u, <<n[1], c.r[1]>>) \/ ~Shaped(c.runs[k].w, <<n[2], c.r[1]>>) THEN "generate returns matrices of another shape"
  ELSE "ok"
VDraw(c) ==
  LET n == c.n IN
  IF Len(c.spl) # 3 \/ (\E k \in 1..3 : Len(c.spl[k]) # c.num) THEN "an index list has another length"
  ELSE IF \E k \in 1..3 : \E i \in 1..c.num : c.spl[k][i] < 0 \/ c.spl[k][i] >= n[k] THEN "an index is outside its range"
  ELSE IF Cardinality({ <<c.spl[1][i], c.spl[2][i], c.spl[3][i]>> : i \in 1..c.num }) < (IF c.all THEN n[1] * n[2] * n[3] ELSE 1) THEN "a position is never drawn"
  ELSE "ok"

\* --- cone projection -----------------------------------------------------
\* a returned zero vector may be the number 0
IsZeroVec(o) == Finite(o) /\ \A i \in 1..Len(o.d) : FLe(FAbs(o.d[i]), FPow(1, -3))
VCone(c) ==
  LET nx == Norm(c.x) t == c.t
      f == FDiv(FAdd(nx, t), FMul(FTwo, nx))
      tol == FMul(FInt(2), Tol(c)) IN
  IF ~Finite(c.ox) \/ ~PIsFin(c.ot) THEN "the projection is not finite"
  ELSE IF FLe(nx, t)
  THEN IF NearT(c.ox, c.x, tol, FOne) /\ Near(c.ot, t, tol) THEN "ok" ELSE "a point of the cone is moved"
  ELSE IF FLe(t, FNeg(nx))
  THEN IF IsZeroVec(c.ox) /\ c.ot = FZero /\ (c.impl = "np" \/ c.ox.s = c.x.s) THEN "ok" ELSE "a point of the polar cone is not sent to zero"
  ELSE IF NearT(c.ox, Scale(c.x, f), tol, FOne) /\ Near(c.ot, FMul(f, nx), tol) THEN "ok" ELSE "the projection is not the scaled pair"

Verdict(c) ==
  IF Has(c, "err") THEN "the call raised " \o c.err
  ELSE CASE c.op = "sample" -> VSample(c) [] c.op = "adjoint" -> VAdjoint(c) [] c.op = "shrink" -> VShrink(c)
         [] c.op = "factors" -> VFactors(c) [] c.op = "draw" -> VDraw(c) [] c.op = "cone" -> VCone(c)
Judge == Report(Cases[pos], Verdict(Cases[pos]))
=============================================================================
