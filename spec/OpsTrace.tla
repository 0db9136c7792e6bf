------------------------------ MODULE OpsTrace ------------------------------
(***************************************************************************)
(* Judges recorded calls of the tensor operations, losses and Kruskal and  *)
(* Tucker tensors (properties C01..C07, C09, C10) against TensorAlg.       *)
(* Integer-valued data are compared exactly; real-valued results (losses,  *)
(* spectral norms, float data) with the tolerance recorded in the case.    *)
(***************************************************************************)
EXTENDS TraceLanes, FxAlg
I == INSTANCE IntAlg

Inc(q) == [i \in 1..Len(q) |-> q[i] + 1]
IncSet(q) == { q[i] + 1 : i \in 1..Len(q) }
\* the recorded result is a well-formed tensor of exactly these sizes
Shaped(o, s) == Has(o, "s") /\ o.s = s /\ ~Has(o, "bad") /\ Len(o.d) = Prod(s)
AllTrue(q) == \A i \in 1..Len(q) : q[i][1]
\* first failing clause of a sequence of <<condition, name>>; conditions are lazy
RECURSIVE FirstFail(_, _)
FirstFail(q, i) == IF i > Len(q) THEN "ok" ELSE IF q[i][1] THEN FirstFail(q, i + 1) ELSE q[i][2]

VUnfold(c) ==
  LET m == c.mode + 1 s == <<c.T.s[m], Prod(c.T.s) \div c.T.s[m]>> IN
  IF ~Shaped(c.out, s) THEN "unfolding has the wrong shape or altered values"
  ELSE IF ~I!IsUnfolding(c.out, c.T, m) THEN "an element is not at its Kolda row and column"
  ELSE IF c.odt # c.dt THEN "element type changed"
  ELSE "ok"

VFold(c) ==
  LET m == c.mode + 1 IN
  IF ~Shaped(c.out, c.s) THEN "folded tensor has the wrong shape or altered values"
  ELSE IF ~I!IsUnfolding(c.M, c.out, m) THEN "the unfolding of the folded tensor is not the given matrix"
  ELSE IF ~Shaped(c.back, c.M.s) \/ c.back.d # c.M.d THEN "unfold(fold(M)) is not M"
  ELSE IF c.odt # c.dt THEN "element type changed"
  ELSE "ok"

VVec(c) == IF ~Shaped(c.out, <<Len(c.T.d)>>) \/ c.out.d # c.T.d THEN "vectorize is not row-major order"
           ELSE IF c.odt # c.dt THEN "element type changed" ELSE "ok"
VVec2(c) == IF ~Shaped(c.out, c.s) \/ c.out.d # c.T.d THEN "vec_to_tensor is not the inverse of vectorize"
            ELSE IF c.odt # c.dt THEN "element type changed" ELSE "ok"

VT2mat(c) ==
  LET R == Inc(c.r)
      C == IF c.cinf THEN I!Rest(Len(c.T.s), IncSet(c.r)) ELSE Inc(c.c)
      s == <<Prod(I!Pick(c.T.s, R)), Prod(I!Pick(c.T.s, C))>>
  IN  IF ~Shaped(c.out, s) THEN "flattening has the wrong shape or altered values"
      ELSE IF ~I!IsFlattening(c.out, c.T, R, C) THEN "an element is not at its row and column"
      ELSE IF c.rpost # c.r \/ (~c.cinf /\ c.cpost # c.c) THEN "an axis argument was modified"
      ELSE IF c.out2 # c.out THEN "repeating the call gives another result"
      ELSE IF c.odt # c.dt THEN "element type changed"
      ELSE "ok"

VMul(c) ==
  LET p == Inc(c.p) q == Inc(c.q)
      E == I!Contract(c.A, c.B, p, q)
  IN  IF ~Shaped(c.out, E.s) THEN "contraction has the wrong shape or non-integral values"
      ELSE IF c.out.d # E.d THEN "an entry is not the sum over the paired indices"
      ELSE IF c.ppost # c.p \/ c.qpost # c.q THEN "an axis argument was modified"
      ELSE "ok"

VTtm(c) ==
  LET n == Len(c.ms)
      As == IF c.tr THEN [i \in 1..n |-> I!Transpose(c.ms[i])] ELSE c.ms
      E == CASE c.how = "axis" -> I!Ttm(c.T, As, Inc(c.axis))
             [] c.how = "default" -> I!Ttm(c.T, As, [i \in 1..n |-> i])
             [] c.how = "skip" ->
                  LET K == IncSet(c.axis) IN I!Ttm(c.T, I!Filter(As, K), I!Rest(n, K))
  IN  IF ~Shaped(c.out, E.s) THEN "product has the wrong shape or non-integral values"
      ELSE IF c.out.d # E.d THEN "an entry differs from the successive mode products"
      ELSE IF ~c.same THEN "an argument was modified"
      ELSE "ok"

VList(c) ==
  LET L0 == I!Filter(c.ms, IncSet(c.skip))
      L == IF c.rev THEN I!Rev(L0) ELSE L0
      E == CASE c.op = "kron" -> I!Kron(L) [] c.op = "khatri" -> I!Khatri(L) [] c.op = "hadamard" -> I!Hadamard(L)
  IN  IF ~Shaped(c.out, E.s) THEN "product has the wrong shape or non-integral values"
      ELSE IF c.out.d # E.d THEN "an entry differs from the product of the remaining matrices in order"
      ELSE IF ~c.same THEN "an argument was modified"
      ELSE "ok"

\* --- losses --------------------------------------------------------------
Tol(c) == c.tol
ScalarF(o) == o.s = <<>> /\ Len(o.d) = 1 /\ PIsFin(o.d[1])
LossVal(c) ==
  LET D == SubT(c.A, c.B)
      nz == TLCEval([i \in 1..Len(c.A.d) |-> IF c.A.d[i][1] = 0 THEN FZero ELSE FOne])
      \* the hypothesis is not looked at where the reference is zero: it may even hold no number there
      masked == [i \in 1..Len(c.A.d) |-> IF c.A.d[i][1] = 0 THEN FZero ELSE FSub(c.A.d[i], c.B.d[i])]
  IN  CASE c.op = "inner" -> FDot(c.A.d, c.B.d)
        [] c.op = "l2" -> FMul(FHalf, FDot(D.d, D.d))
        [] c.op = "rmse" -> FSqrt(FDiv(FDot(D.d, D.d), FInt(Len(D.d))))
        [] c.op = "rmsez" -> FSqrt(FDiv(FDot(masked, masked), FSum(nz)))
\* magnitude against which a rounding error of the sums is measured
LossMag(c) ==
  IF c.op = "inner" THEN FDot([i \in 1..Len(c.A.d) |-> FAbs(c.A.d[i])], [i \in 1..Len(c.B.d) |-> FAbs(c.B.d[i])])
  ELSE FZero
\* error of a loss as an error of the sum it is made of (the root enlarges errors of small sums)
Residue(c, o, E) ==
  IF c.op \in {"rmse", "rmsez"} THEN FMul(FAbs(FSub(o, E)), FAdd(FAbs(o), E)) ELSE FAbs(FSub(o, E))
VLoss(c) ==
  IF c.A.s # c.B.s THEN
     (IF c.op = "l2" THEN "skip: shapes differ"
      ELSE IF ~Has(c, "err") THEN "no error for different shapes"
      ELSE IF c.op = "inner" /\ c.err # "ValueError" THEN "wrong error for different shapes"
      ELSE IF c.op \in {"rmse", "rmsez"} /\ c.err # "TensorErr" THEN "wrong error for different shapes"
      ELSE "ok")
  ELSE IF Has(c, "err") THEN "raised " \o c.err
  ELSE IF c.op = "rmsez" /\ \A i \in 1..Len(c.A.d) : c.A.d[i][1] = 0 THEN "skip: no nonzero reference element"
  ELSE IF ~ScalarF(c.out) THEN "the loss is not a finite scalar"
  ELSE LET E == LossVal(c) o == c.out.d[1] IN
       IF Within(o, E, c.tol, FMax(FAbs(E), FMax(LossMag(c), FPow(1, -2)))) THEN "ok"
       ELSE IF FLe(Residue(c, o, E), <<1, 8 * Len(c.A.d)>>) THEN "ok"   \* within the last digits of the specification's numbers
       ELSE "the value differs from the definition"

\* --- max_single_value_mul, xcb -------------------------------------------
VMsv(c) ==
  LET L == Filter(c.ms, IncSet(c.skip))
      E == FProd([i \in 1..Len(L) |-> SpectralNorm(L[i])])
  IN  IF ~ScalarF(c.out) THEN "the product is not a finite scalar"
      ELSE IF Within(c.out.d[1], E, c.tol, FMax(E, FPow(1, -2))) THEN "ok"
      ELSE "the value differs from the product of the spectral norms"
VXcb(c) ==
  LET E == I!Xcb(c.X, c.C, c.B) IN
  IF ~Shaped(c.out, E.s) THEN "xcb has the wrong shape or non-integral values"
  ELSE IF c.out.d # E.d THEN "an entry differs from the sum over the nonzero elements"
  ELSE "ok"

\* --- Kruskal and Tucker tensors -------------------------------------------
\* what the object says of itself: the factors it was given, its order, the weights as a column, the core
SameT(c, a, b) ==
  IF Has(c, "tol") THEN a.s = b.s /\ Finite(a) /\ NearT(a, b, c.tol, FPow(1, -1))
  ELSE Shaped(a, b.s) /\ a.d = b.d
Parts(c, w) ==
  IF c.aord # Len(c.Us) \/ Len(c.aU) # Len(c.Us) THEN "the object's order or number of factors is wrong"
  ELSE IF \E i \in 1..Len(c.Us) : ~SameT(c, c.aU[i], c.Us[i]) THEN "the object's factors are not those given"
  ELSE IF Has(c, "G") THEN (IF SameT(c, c.ag, c.G) THEN "ok" ELSE "the object's core is not the one given")
  ELSE IF SameT(c, c.aw, [s |-> <<Len(w), 1>>, d |-> w]) THEN "ok"
  ELSE "the object's weights are not the column of those given"

VKt(c) ==
  LET w == IF Has(c, "w") THEN c.w ELSE [i \in 1..c.Us[1].s[2] |-> 1]
      E == I!Kruskal(c.Us, w)
  IN  IF ~Shaped(c.out, E.s) THEN "extracted tensor has the wrong shape or non-integral values"
      ELSE IF c.out.d # E.d THEN "an entry differs from the weighted sum of outer products"
      ELSE Parts(c, w)
VTt(c) ==
  LET E == I!Tucker(c.G, c.Us) IN
  IF ~Shaped(c.out, E.s) THEN "extracted tensor has the wrong shape or non-integral values"
  ELSE IF c.out.d # E.d THEN "an entry differs from the core multiplied along each mode"
  ELSE Parts(c, <<>>)
\* real-valued factors: within the tolerance
VKtF(c) ==
  LET w == IF Has(c, "w") THEN c.w ELSE [i \in 1..c.Us[1].s[2] |-> FOne]
      E == Kruskal(c.Us, w)
  IN  IF c.out.s # E.s \/ ~Finite(c.out) THEN "extracted tensor has the wrong shape or is not finite"
      ELSE IF ~NearT(c.out, E, c.tol, FPow(1, -1)) THEN "an entry differs from the weighted sum of outer products"
      ELSE Parts(c, w)
VTtF(c) ==
  LET E == Tucker(c.G, c.Us) IN
  IF c.out.s # E.s \/ ~Finite(c.out) THEN "extracted tensor has the wrong shape or is not finite"
  ELSE IF ~NearT(c.out, E, c.tol, FPow(1, -1)) THEN "an entry differs from the core multiplied along each mode"
  ELSE Parts(c, <<>>)

Verdict(c) ==
  IF c.op \in {"inner", "l2", "rmse", "rmsez"} THEN VLoss(c)
  ELSE IF c.op = "ttm_both" THEN
     (IF ~Has(c, "err") THEN "axis and skip together are accepted"
      ELSE IF c.err # "ValueError" THEN "axis and skip together raise another error" ELSE "ok")
  ELSE IF Has(c, "err") THEN "raised " \o c.err
  ELSE CASE c.op = "unfold" -> VUnfold(c)
         [] c.op = "fold" -> VFold(c)
         [] c.op = "vectorize" -> VVec(c)
         [] c.op = "vec2t" -> VVec2(c)
         [] c.op = "t2mat" -> VT2mat(c)
         [] c.op = "mul" -> VMul(c)
         [] c.op = "ttm" -> VTtm(c)
         [] c.op \in {"kron", "khatri", "hadamard"} -> VList(c)
         [] c.op = "msv" -> VMsv(c)
         [] c.op = "xcb" -> VXcb(c)
         [] c.op = "ktensor" -> VKt(c)
         [] c.op = "ttensor" -> VTt(c)
         [] c.op = "ktensorf" -> VKtF(c)
         [] c.op = "ttensorf" -> VTtF(c)

Judge == LET c == Cases[pos] IN Report(c, Verdict(c))
=============================================================================
