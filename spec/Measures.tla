------------------------------ MODULE Measures ------------------------------
(***************************************************************************)
(* What the two numbers of a training history mean: the loss is the root   *)
(* mean square error over the nonzero data, the residual the relative      *)
(* error of the reconstruction P of the data X.                            *)
(***************************************************************************)
EXTENDS Algo

LossOf(X, P) ==
  LET nz == { n \in 1..Len(X.d) : X.d[n][1] # 0 }
      d == TLCEval([n \in 1..Len(X.d) |-> IF n \in nz THEN FSub(X.d[n], P.d[n]) ELSE FZero])
  IN  FSqrt(FDiv(FDot(d, d), FInt(Cardinality(nz))))
RelOf(X, P) == FDiv(Norm(SubT(P, X)), Norm(X))
LossOk(x, X, P) == LET t == LossOf(X, P) IN
  FLe(FAbs(FSub(x, t)), FAdd(FMul(E6(10), t), FMul(E6(1), FAdd(MaxAbs(X), FDiv(MaxAbs(P), FInt(4))))))
RelOk(x, X, P) == LET t == RelOf(X, P) IN
  FLe(FAbs(FSub(x, t)), FAdd(FMul(E6(10), t), E6(2)))
StateHist(hs, X, P) ==
  IF ~Finite(P) THEN "ok"
  ELSE IF P.s # X.s THEN "the reconstruction has the wrong shape"
  ELSE IF ~LossOk(hs[1], X, P) THEN "the loss in the history is not the RMSE over the nonzero data of that step's state"
  ELSE IF ~RelOk(hs[2], X, P) THEN "the residual in the history is not the relative error of that step's state"
  ELSE "ok"
=============================================================================
