------------------------------ MODULE FxTest ------------------------------
(* Definitions of FxDef against the Java evaluation of Fx on a grid of     *)
(* numbers of all sizes, signs and limb patterns.                          *)
EXTENDS Fx, IntAlg, FiniteSets
Mags == { <<>>, <<1>>, <<9999>>, <<0, 1>>, <<5000, 5000>>, <<0, 0, 0, 0, 1>>,
          <<0, 0, 0, 0, 2>>, <<9999, 9999, 9999, 9999, 9999>>, <<1, 0, 0, 0, 0, 1>>,
          <<1234, 5678, 9012, 3456, 7890>>, <<7, 0, 0, 0, 0, 0, 0, 0, 3>>,
          <<4321, 8765, 2109, 6543, 987, 1>>, <<0, 0, 0, 5000>>, <<3, 1415, 9265, 3589>> }
Nums == { PMk(s, m) : s \in {-1, 1}, m \in Mags }
VARIABLE p
None == <<0, 0, 0>>          \* not a number: last limb zero
Init == p = <<None, None>>
Next == \/ p[1] = None /\ \E a \in Nums : p' = <<a, None>>
        \/ p[1] # None /\ p[2] = None /\ \E b \in Nums : p' = <<p[1], b>>
Agree == p[2] # None => LET a == p[1] b == p[2] IN
  /\ FAdd(a, b) = PFAdd(a, b)
  /\ FSub(a, b) = PFSub(a, b)
  /\ FMul(a, b) = PFMul(a, b)
  /\ (b # <<0>> => FDiv(a, b) = PFDiv(a, b))
  /\ FCmp(a, b) = PFCmp(a, b)
  /\ FNeg(a) = PFNeg(a)
  /\ (a[1] >= 0 => FSqrt(a) = PFSqrt(a))
  /\ FDot(<<a, b, a>>, <<b, b, a>>) = PFDot(<<a, b, a>>, <<b, b, a>>)
  /\ FMaxAbs(<<a, b>>) = PFMaxAbs(<<a, b>>)
  /\ FSum(<<a, b, a>>) = PFSum(<<a, b, a>>)
  /\ \A n \in {0, 1, -1, 9999, 10000, -123456789, 2147483647} :
        /\ FInt(n) = PFInt(n)
        /\ \A k \in -4..2 : FPow(n, k) = PFPow(n, k)
  /\ IDot(<<3, -4, 5>>, <<7, 8, -9>>) = IDotFrom(<<3, -4, 5>>, <<7, 8, -9>>, 1, 0)
  \* ring laws and the characterisation of the rounded operations, on the definitions
  /\ PFAdd(a, b) = PFAdd(b, a) /\ PFMul(a, b) = PFMul(b, a)
  /\ PFSub(PFAdd(a, b), b) = a
  /\ (a[1] >= 0 => LET r == PFSqrt(a) IN
        PFCmp(PFMul(r, r), a) <= 0)
=============================================================================
