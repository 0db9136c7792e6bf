------------------------------- MODULE PitfAlg -------------------------------
(***************************************************************************)
(* The operators of pairwise interaction tensor factorization by their     *)
(* definitions (C25..C31).  n is the triple of sizes, spl the triple of    *)
(* index lists (0-based).  Selector 0 pairs modes 1,2; 1 pairs 2,3; 2      *)
(* pairs 3,1; Third is the mode left over.                                 *)
(***************************************************************************)
EXTENDS FxAlg
RowMode(d) == CASE d = 0 -> 1 [] d = 1 -> 2 [] d = 2 -> 3
ColMode(d) == CASE d = 0 -> 2 [] d = 1 -> 3 [] d = 2 -> 1
Third(d) == CASE d = 0 -> 3 [] d = 1 -> 1 [] d = 2 -> 2
Vec(q) == [s |-> <<Len(q)>>, d |-> q]
RootInt(k) == FSqrt(FInt(k))

\* --- sampling ------------------------------------------------------------
SampleT(T, spl) == Vec(TLCEval([i \in 1..Len(spl[1]) |-> At(T, <<spl[1][i], spl[2][i], spl[3][i]>>)]))
SampleM(d, A, n, spl) ==
  LET w == RootInt(n[Third(d)]) IN
  Vec(TLCEval([i \in 1..Len(spl[1]) |-> FDiv(M(A, spl[RowMode(d)][i], spl[ColMode(d)][i]), w)]))
SamplePair(X, Y, Z, n, spl) == AddT(AddT(SampleM(0, X, n, spl), SampleM(1, Y, n, spl)), SampleM(2, Z, n, spl))

\* --- adjoint -------------------------------------------------------------
AtPos(d, spl, p, q) == { i \in 1..Len(spl[1]) : spl[RowMode(d)][i] = p /\ spl[ColMode(d)][i] = q }
LastOf(S) == CHOOSE x \in S : \A y \in S : y <= x
FirstOf(S) == CHOOSE x \in S : \A y \in S : y >= x
Adjoint(d, n, spl, vec, last) ==
  Mat(n[RowMode(d)], n[ColMode(d)], LAMBDA p, q :
     LET S == AtPos(d, spl, p, q) IN
     IF S = {} THEN FZero ELSE vec[IF last THEN LastOf(S) ELSE FirstOf(S)])

\* --- centring, thresholding, shrinkage -----------------------------------
ColSum(A, j) == FSum(TLCEval([i \in 1..A.s[1] |-> M(A, i - 1, j)]))
Center(A) ==
  LET m == TLCEval([j \in 1..A.s[2] |-> FDiv(ColSum(A, j - 1), FInt(A.s[1]))])
  IN  Mat(A.s[1], A.s[2], LAMBDA i, j : FSub(M(A, i, j), m[j + 1]))
Soft(x, tau) == FAdd(FMax(FZero, FSub(x, tau)), FMin(FZero, FAdd(x, tau)))
Cut0(x, tau) == FMax(FZero, FSub(x, tau))
\* orthonormal columns
Orthonormal(U, tol) == NearT(Gram(U), Eye(U.s[2]), tol, FOne)
MinI(a, b) == IF a < b THEN a ELSE b
\* U' C V for the bases U, V: the singular values of C on its diagonal iff U, V
\* are matching singular bases
Rotated(C, U, V) == MatMul(MatMul(Transpose(U), C), V)
Scale1(C) == FMax(FOne, MaxAbs(C))
IsDiagonal(W, tol, sc) == \A i \in 0..(W.s[1] - 1), j \in 0..(W.s[2] - 1) :
    /\ (i # j => FLe(FAbs(M(W, i, j)), FMul(tol, sc)))
    /\ (i = j => FLe(FNeg(M(W, i, j)), FMul(tol, sc)))
SingularBases(C, U, V, tol) ==
  /\ Len(U.s) = 2 /\ Len(V.s) = 2 /\ U.s[1] = C.s[1] /\ V.s[1] = C.s[2]
  /\ U.s[2] >= MinI(C.s[1], C.s[2]) /\ V.s[2] >= MinI(C.s[1], C.s[2])
  /\ Orthonormal(U, tol) /\ Orthonormal(V, tol)
  /\ IsDiagonal(Rotated(C, U, V), tol, FMul(FInt(C.s[1] + C.s[2]), Scale1(C)))
\* sum of the columns u_i s_i v_i'
Rebuilt(U, s, V) ==
  LET k == Len(s) IN
  Mat(U.s[1], V.s[1], LAMBDA i, j : FSum(TLCEval([l \in 1..k |-> FMul(FMul(M(U, i, l - 1), s[l]), M(V, j, l - 1))])))
\* thresholded singular values of C in the bases U, V
Lowered(C, U, V, tau) ==
  LET W == Rotated(C, U, V) k == MinI(C.s[1], C.s[2]) IN TLCEval([i \in 1..k |-> Cut0(M(W, i - 1, i - 1), tau)])
EntrySum(A) == FSum(A.d)
\* shrinkage of A, given singular bases of Center(A)
Shrunk(A, U, V, tau, complicated) ==
  LET C == Center(A)
      B == Rebuilt(U, Lowered(C, U, V, tau), V)
      w == RootInt(A.s[1] * A.s[2])
      g == FDiv(Soft(FDiv(EntrySum(A), w), tau), w)
  IN  IF complicated THEN MapT(B, LAMBDA x : FAdd(x, g)) ELSE B
=============================================================================
