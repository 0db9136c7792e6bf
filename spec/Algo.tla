-------------------------------- MODULE Algo --------------------------------
(***************************************************************************)
(* One step of each factorization algorithm, as a function of the state:   *)
(* the update rules of CP-ALS, non-negative CP and Tucker by block         *)
(* coordinate updates with extrapolation, and the certificates that        *)
(* characterise the dominant subspaces of HOSVD and HOOI.                  *)
(* Modes are 1..Order(X); A is a sequence of factor matrices.              *)
(***************************************************************************)
EXTENDS FxAlg

\* 1, 2, ... * 10^-k style constants
E6(n) == FMul(FInt(n), FDiv(FOne, FInt(1000000)))
RECURSIVE FMaxOf(_, _)
FMaxOf(q, i) == IF i = Len(q) THEN q[i] ELSE FMax(q[i], FMaxOf(q, i + 1))

\* --- linear systems ------------------------------------------------------
\* Gauss-Jordan inversion with partial pivoting; [ok |-> FALSE] if singular
RECURSIVE PivotRow(_, _, _, _)
PivotRow(A, k, i, best) ==
  IF i > A.s[1] THEN best
  ELSE PivotRow(A, k, i + 1,
         IF FLt(FAbs(M(A, best - 1, k - 1)), FAbs(M(A, i - 1, k - 1))) THEN i ELSE best)
RECURSIVE GJ(_, _)
GJ(A, k) ==                       \* A is n x 2n
  IF Len(A.d) = 0 \/ k > A.s[1] THEN [ok |-> TRUE, A |-> A]
  ELSE LET n == A.s[1]
           p == PivotRow(A, k, k, k)
           pv == M(A, p - 1, k - 1)
       IN  IF FLe(FAbs(pv), <<1, 1>>) THEN [ok |-> FALSE, A |-> A]
           ELSE LET row(i) == IF i = k - 1 THEN p - 1 ELSE IF i = p - 1 THEN k - 1 ELSE i
                    prow == TLCEval([j \in 1..A.s[2] |-> FDiv(M(A, p - 1, j - 1), pv)])
                    A2 == Mat(n, A.s[2], LAMBDA i, j :
                            IF i = k - 1 THEN prow[j + 1]
                            ELSE FSub(M(A, row(i), j), FMul(M(A, row(i), k - 1), prow[j + 1])))
                IN  GJ(A2, k + 1)
Inverse(V) ==
  LET n == V.s[1]
      r == GJ(Mat(n, 2 * n, LAMBDA i, j : IF j < n THEN M(V, i, j) ELSE IF j - n = i THEN FOne ELSE FZero), 1)
  IN  IF ~r.ok THEN [ok |-> FALSE, X |-> V]
      ELSE [ok |-> TRUE, X |-> Mat(n, n, LAMBDA i, j : M(r.A, i, j + n))]

\* --- the data seen from one mode ----------------------------------------
Others(A, m) == Pick(A, Rev(Rest(Len(A), {m})))     \* highest mode first
\* unfolded data times the Khatri-Rao product of the other factors
Mttkrp(X, A, m) == MatMul(Unfold(X, m), Khatri(Others(A, m)))
\* Hadamard product of the Gram matrices of the other factors
GramHad(A, m) == Hadamard([i \in 1..(Len(A) - 1) |-> Gram(Others(A, m)[i])])
\* factors in use when mode m is updated: new before m, old from m on
Mixed(new, old, m) == [i \in 1..Len(old) |-> IF i < m THEN new[i] ELSE old[i]]

\* --- CP-ALS --------------------------------------------------------------
\* the factor of mode m is N = Mttkrp * V^-1 up to the division of each column by its
\* largest entry; `lam`, if given, are the divisors
ColMaxOf(N, r) == FMaxOf([i \in 1..N.s[1] |-> M(N, i - 1, r - 1)], 1)
ColAbs(N, r) == FMaxAbs([i \in 1..N.s[1] |-> M(N, i - 1, r - 1)])
CpLS(X, A, m) ==
  LET V == GramHad(A, m)
      K == Mttkrp(X, A, m)
      iv == Inverse(V)
  IN  IF ~iv.ok THEN [ok |-> FALSE]
      ELSE LET N == MatMul(K, iv.X)
               R == FInt(V.s[1])
               kap == FMul(R, FMul(MaxAbs(V), MaxAbs(iv.X)))
               b == FMul(FMul(E6(2), kap), FMul(R, FMul(MaxAbs(K), MaxAbs(iv.X))))
           IN  [ok |-> FLe(b, FMul(E6(10000), MaxAbs(N))), N |-> N, b |-> b]
\* the normal equations (P diag(lam)) V = K; their residual says more than the distance to N when V is
\* ill-conditioned.  fits: TRUE also when V has no usable inverse
CpNormalOk(X, A, m, P, lam) ==
  LET V == GramHad(A, m)
      K == Mttkrp(X, A, m)
      iv == Inverse(V)
      N == Mat(P.s[1], P.s[2], LAMBDA i, r : FMul(M(P, i, r), lam[r + 1]))
      kap == FMul(FInt(V.s[1]), FMul(MaxAbs(V), MaxAbs(iv.X)))
  IN  ~iv.ok \/ FLe(E6(100000), FMul(E6(1), kap))
      \/ FLe(MaxAbs(SubT(MatMul(N, V), K)), FMul(FMul(E6(1), kap), MaxAbs(K)))
\* verdict for the new factor P of mode m
CpFactorOk(ls, P) ==
  \A r \in 1..P.s[2] :
    LET l == ColMaxOf(ls.N, r)
        b == FMul(ls.b, FAdd(FOne, ColAbs(P, r)))
    IN  \A i \in 1..P.s[1] : FLe(FAbs(FSub(FMul(M(P, i - 1, r - 1), l), M(ls.N, i - 1, r - 1))), b)
\* the largest entry of each column is one (unless the divisor vanished)
CpColMax(ls, P) ==
  \A r \in 1..P.s[2] :
    LET l == ColMaxOf(ls.N, r) IN
    \/ FLe(l, FMul(FInt(50), ls.b))
    \/ FLe(FAbs(FSub(ColMaxOf(P, r), FOne)), E6(20))
CpWeightsOk(ls, lam) ==
  \A r \in 1..Len(lam) : FLe(FAbs(FSub(lam[r], ColMaxOf(ls.N, r))), FMul(FTwo, ls.b))

\* --- non-negative block coordinate updates -------------------------------
\* max(0, P - (P V - K) / L) and the rounding allowance for it
BcuFactor(P, V, K, L) == Relu(SubT(P, DivBy(SubT(MatMul(P, V), K), L)))
BcuBound(P, V, K, L) ==
  FMul(E6(5), FAdd(MaxAbs(P), FDiv(FAdd(FMul(FInt(V.s[1]), FMul(MaxAbs(P), MaxAbs(V))), MaxAbs(K)), L)))
WithinT(A, B, b) == /\ A.s = B.s /\ Len(A.d) = Len(B.d)
                    /\ \A n \in 1..Len(A.d) : FLe(FAbs(FSub(A.d[n], B.d[n])), b)
NextT(t0) == FDiv(FAdd(FOne, FSqrt(FAdd(FOne, FMul(FInt(4), Sq(t0))))), FTwo)
Weight(t0, t, Lprev, L) == FMin(FDiv(FSub(t0, FOne), t), FSqrt(FDiv(Lprev, L)))
Extrapolate(A, A0, w) == AddT(A, Scale(SubT(A, A0), w))
Objective(full, X) == FMul(FHalf, Norm2(SubT(full, X)))

\* Tucker: B of mode m, so that the model's mode-m unfolding is A_m * B
TuckerB(g, A, m) == Unfold(Ttm(g, Pick(A, Rest(Len(A), {m})), Rest(Len(A), {m})), m)
All(n) == [i \in 1..n |-> i]
CoreGrams(A) == [i \in 1..Len(A) |-> Gram(A[i])]
Project(X, A) == Ttm(X, [i \in 1..Len(A) |-> Transpose(A[i])], All(Len(A)))
ProjectBut(X, A, m) ==
  LET q == Rest(Len(A), {m}) IN Ttm(X, [i \in 1..Len(q) |-> Transpose(A[q[i]])], q)

\* --- dominant left singular subspaces ------------------------------------
\* Certificate that the columns of U are the leading left singular vectors of Y, in
\* descending order: U orthonormal, U spans an invariant subspace of S = Y Y^T with
\* Ritz values d_1 >= ... >= d_r on the diagonal, and at most r - 1 eigenvalues of S
\* exceed d_r.  delta is the allowance relative to the largest eigenvalue.
Leading(U, Y, delta) ==
  LET S == MatMul(Y, Transpose(Y))
      SU == MatMul(S, U)
      D == MatMul(Transpose(U), SU)
      r == U.s[2]
      nrm == Trace(S)
      b == FMul(delta, nrm)
      UD == Mat(U.s[1], r, LAMBDA i, j : FMul(M(U, i, j), M(D, j, j)))
      UU == MatMul(Transpose(U), U)
  IN  IF U.s[1] # Y.s[1] THEN "a factor has the wrong number of rows"
      ELSE IF ~Finite(U) THEN "a factor is not finite"
      ELSE IF ~WithinT(UU, Eye(r), E6(20)) THEN "the columns of a factor are not orthonormal"
      ELSE IF ~WithinT(SU, UD, b) THEN "a column is not a left singular vector"
      ELSE IF \E j \in 1..(r - 1) : FLt(FAdd(M(D, j - 1, j - 1), b), M(D, j, j))
           THEN "the singular vectors are not in descending order"
      ELSE IF CountAbove(S, FAdd(M(D, r - 1, r - 1), FMul(FTwo, b))) > r - 1
           THEN "the singular vectors are not the leading ones"
      ELSE "ok"
=============================================================================
