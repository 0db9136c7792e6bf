------------------------------- MODULE FxAlg -------------------------------
(***************************************************************************)
(* TensorAlg over the fixed-point numbers of Fx, and the numerical linear  *)
(* algebra the decompositions need: norms, spectral norms, Gaussian        *)
(* elimination, eigenvalue counting.                                       *)
(***************************************************************************)
EXTENDS Fx, FiniteSets
FZero == <<0>>
FOne == FInt(1)
INSTANCE TensorAlg WITH Zero <- FZero, One <- FOne, Add <- FAdd, Mul <- FMul, Dot <- FDot

FLe(a, b) == FCmp(a, b) <= 0
FLt(a, b) == FCmp(a, b) < 0
FAbs(a) == IF a[1] = -1 THEN FNeg(a) ELSE a
FMax(a, b) == IF FLe(a, b) THEN b ELSE a
FMin(a, b) == IF FLe(a, b) THEN a ELSE b
FTwo == FInt(2)
FHalf == FPow(5000, -1)
Sq(a) == FMul(a, a)

Finite(T) == \A n \in 1..Len(T.d) : PIsFin(T.d[n])
\* |a - b| <= tol * max(1, |a|, |b|)  (mixed absolute/relative)
Near(a, b, tol) == FLe(FAbs(FSub(a, b)), FMul(tol, FMax(FOne, FMax(FAbs(a), FAbs(b)))))
\* |a - b| <= tol * scale
Within(a, b, tol, scale) == FLe(FAbs(FSub(a, b)), FMul(tol, scale))
MaxAbs(T) == FMaxAbs(T.d)
\* element-wise closeness, relative to the largest element (absolute floor `floor`)
NearT(A, B, tol, floor) ==
  /\ A.s = B.s
  /\ Len(A.d) = Len(B.d)
  /\ LET sc == FMax(floor, FMax(MaxAbs(A), MaxAbs(B)))
         b == FMul(tol, sc)
     IN \A n \in 1..Len(A.d) : FLe(FAbs(FSub(A.d[n], B.d[n])), b)

SubT(A, B) == ZipWith(A, B, FSub)
AddT(A, B) == ZipWith(A, B, FAdd)
Scale(A, c) == MapT(A, LAMBDA x : FMul(x, c))
DivBy(A, c) == MapT(A, LAMBDA x : FDiv(x, c))
Relu(A) == MapT(A, LAMBDA x : IF x[1] = -1 THEN FZero ELSE x)
Norm2(T) == FDot(T.d, T.d)
Norm(T) == FSqrt(Norm2(T))
Eye(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN FOne ELSE FZero)
Trace(A) == FSum(TLCEval([i \in 1..A.s[1] |-> M(A, i - 1, i - 1)]))

RECURSIVE FProdFrom(_, _)
FProdFrom(q, i) == IF i > Len(q) THEN FOne ELSE FMul(q[i], FProdFrom(q, i + 1))
FProd(q) == FProdFrom(q, 1)

\* Largest eigenvalue of a symmetric positive semidefinite matrix, by repeated
\* squaring of the trace-normalised matrix: P_k = V^(2^k)/trace(V^(2^k)), and
\* trace(V P_k) lies within a factor (1 - n 2^-k) of the largest eigenvalue.
RECURSIVE PowNorm(_, _)
PowNorm(P, k) ==
  IF k = 0 \/ Len(P.d) = 0 THEN P           \* looking at P forces its evaluation
  ELSE LET Q == MatMul(P, P) IN PowNorm(DivBy(Q, Trace(Q)), k - 1)
LMax(V) ==
  LET t == Trace(V) IN
  IF t[1] # 1 THEN FZero
  ELSE LET P0 == DivBy(V, t)
           P == PowNorm(P0, 24)
       IN  FMul(t, Trace(MatMul(P0, P)))
\* spectral norm of any matrix
SpectralNorm(A) ==
  LET G == IF A.s[1] < A.s[2] THEN MatMul(A, Transpose(A)) ELSE Gram(A) IN FSqrt(LMax(G))

\* Number of negative pivots of the symmetric matrix A in LDL^T elimination: by
\* Sylvester's law the number of negative eigenvalues (pivots that vanish are
\* replaced by a tiny positive number).
RECURSIVE NegPiv(_, _)
NegPiv(A, k) ==
  IF k > A.s[1] THEN 0
  ELSE LET n == A.s[1]
           p0 == M(A, k - 1, k - 1)
           p == IF p0[1] = 0 THEN <<1, 1>> ELSE p0
           f == TLCEval([i \in 1..n |-> IF i > k THEN FDiv(M(A, i - 1, k - 1), p) ELSE FZero])
           A2 == Mat(n, n, LAMBDA i, j :
                   IF i + 1 > k /\ j + 1 > k THEN FSub(M(A, i, j), FMul(f[i + 1], M(A, k - 1, j)))
                   ELSE M(A, i, j))
       IN  (IF p[1] = -1 THEN 1 ELSE 0) + NegPiv(A2, k + 1)
\* number of eigenvalues of symmetric S above mu
CountAbove(S, mu) ==
  NegPiv(Mat(S.s[1], S.s[1], LAMBDA i, j : IF i = j THEN FSub(mu, M(S, i, j)) ELSE FNeg(M(S, i, j))), 1)
=============================================================================
