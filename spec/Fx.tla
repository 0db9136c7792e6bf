-------------------------------- MODULE Fx --------------------------------
(* The operators of FxDef under the names the other modules use.  TLC      *)
(* evaluates them with spec/java/Fx.java when that class is on its path.   *)
EXTENDS FxDef
FNeg(a) == PFNeg(a)
FAdd(a, b) == PFAdd(a, b)
FSub(a, b) == PFSub(a, b)
FMul(a, b) == PFMul(a, b)
FDiv(a, b) == PFDiv(a, b)
FCmp(a, b) == PFCmp(a, b)
FSqrt(a) == PFSqrt(a)
FInt(n) == PFInt(n)
FPow(n, k) == PFPow(n, k)
FDot(u, v) == PFDot(u, v)
FSum(u) == PFSum(u)
FMaxAbs(u) == PFMaxAbs(u)
=============================================================================
