------------------------------- MODULE FxDef -------------------------------
(***************************************************************************)
(* Fixed-point real numbers for TLC, whose integers have 32 bits.          *)
(*                                                                         *)
(* A number is a tuple  <<sg, l1, ..., lk>>  of a sign sg \in {-1, 0, 1}   *)
(* and base-10^4 limbs, least significant first, no leading (last) zero    *)
(* limb; <<0>> is zero.  It denotes  sg * (sum l_i * 10^(4(i-1))) / 10^16. *)
(* <<2>>, <<3>>, <<4>> stand for NaN, +Inf, -Inf read from the code; the   *)
(* operators below are only applied to finite numbers.                     *)
(*                                                                         *)
(* This module holds the definitions.  Module Fx names the same operators, *)
(* and spec/java/Fx.java evaluates them with BigInteger when its class is  *)
(* on TLC's class path; module FxTest compares the two.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL B == 10000
LOCAL SCALE_LIMBS == 4

PSgn(a) == a[1]
PMag(a) == Tail(a)
PIsFin(a) == a[1] \in {-1, 0, 1}

RECURSIVE PTrim(_)
PTrim(m) == IF Len(m) > 0 /\ m[Len(m)] = 0 THEN PTrim(SubSeq(m, 1, Len(m) - 1)) ELSE m

PMk(sg, m) == LET t == PTrim(m) IN IF Len(t) = 0 THEN <<0>> ELSE <<sg>> \o t

LOCAL Lim(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

\* magnitude comparison: -1, 0, 1
RECURSIVE PCmpFrom(_, _, _)
PCmpFrom(m, n, i) ==
  IF i = 0 THEN 0
  ELSE IF Lim(m, i) < Lim(n, i) THEN -1
  ELSE IF Lim(m, i) > Lim(n, i) THEN 1
  ELSE PCmpFrom(m, n, i - 1)
LOCAL Max2(x, y) == IF x > y THEN x ELSE y
PCmpMag(m, n) == PCmpFrom(m, n, Max2(Len(m), Len(n)))

RECURSIVE PAddMag(_, _, _, _)
PAddMag(m, n, i, c) ==
  IF i > Max2(Len(m), Len(n)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Lim(m, i) + Lim(n, i) + c IN <<s % B>> \o PAddMag(m, n, i + 1, s \div B)

\* m >= n
RECURSIVE PSubMag(_, _, _, _)
PSubMag(m, n, i, b) ==
  IF i > Len(m) THEN <<>>
  ELSE LET s == Lim(m, i) - Lim(n, i) - b IN
       IF s < 0 THEN <<s + B>> \o PSubMag(m, n, i + 1, 1)
                ELSE <<s>> \o PSubMag(m, n, i + 1, 0)

\* m times one limb d, with carry c
RECURSIVE PMulLimb(_, _, _, _)
PMulLimb(m, d, i, c) ==
  IF i > Len(m) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == m[i] * d + c IN <<s % B>> \o PMulLimb(m, d, i + 1, s \div B)

RECURSIVE PMulMag(_, _)
PMulMag(m, n) ==
  IF Len(n) = 0 THEN <<>>
  ELSE PAddMag(PMulLimb(m, n[1], 1, 0),
               LET r == PMulMag(m, Tail(n)) IN IF Len(r) = 0 THEN <<>> ELSE <<0>> \o r,
               1, 0)

\* long division of magnitudes: walks m from its most significant limb
RECURSIVE PDigit(_, _, _, _)
PDigit(r, n, lo, hi) ==    \* largest q in lo..hi with n*q <= r
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2 IN
       IF PCmpMag(PTrim(PMulLimb(n, mid, 1, 0)), r) <= 0 THEN PDigit(r, n, mid, hi)
                                                         ELSE PDigit(r, n, lo, mid - 1)
RECURSIVE PDivFrom(_, _, _, _)
PDivFrom(m, n, i, r) ==    \* quotient limbs, least significant first
  IF i = 0 THEN <<>>
  ELSE LET r1 == PTrim(<<m[i]>> \o r)
           q  == PDigit(r1, n, 0, B - 1)
           r2 == PTrim(PSubMag(r1, PTrim(PMulLimb(n, q, 1, 0)), 1, 0))
       IN  PDivFrom(m, n, i - 1, r2) \o <<q>>
PDivMag(m, n) == PTrim(PDivFrom(m, n, Len(m), <<>>))

LOCAL DropLimbs(m, k) == IF Len(m) <= k THEN <<>> ELSE SubSeq(m, k + 1, Len(m))
LOCAL Zeros(k) == [i \in 1..k |-> 0]

-----------------------------------------------------------------------------
PFNeg(a) == IF a[1] = 0 THEN a ELSE <<-a[1]>> \o Tail(a)
PFAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN PMk(a[1], PAddMag(Tail(a), Tail(b), 1, 0))
  ELSE LET c == PCmpMag(Tail(a), Tail(b)) IN
       IF c = 0 THEN <<0>>
       ELSE IF c > 0 THEN PMk(a[1], PSubMag(Tail(a), Tail(b), 1, 0))
       ELSE PMk(b[1], PSubMag(Tail(b), Tail(a), 1, 0))
PFSub(a, b) == PFAdd(a, PFNeg(b))
\* product, truncated towards zero
PFMul(a, b) ==
  IF a[1] = 0 \/ b[1] = 0 THEN <<0>>
  ELSE PMk(a[1] * b[1], DropLimbs(PMulMag(Tail(a), Tail(b)), SCALE_LIMBS))
\* quotient, truncated towards zero; b # 0
PFDiv(a, b) ==
  IF a[1] = 0 THEN <<0>>
  ELSE PMk(a[1] * b[1], PDivMag(Zeros(SCALE_LIMBS) \o Tail(a), Tail(b)))
\* comparison: -1, 0, 1
PFCmp(a, b) ==
  IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
  ELSE IF a[1] = 0 THEN 0
  ELSE a[1] * PCmpMag(Tail(a), Tail(b))
\* square root, truncated; a >= 0 : Newton iteration on integers r -> (r + n/r)/2 from above
RECURSIVE PIter(_, _)
PIter(n, r) ==
  LET s == PDivMag(PAddMag(r, PDivMag(n, r), 1, 0), <<2>>)
  IN  IF PCmpMag(s, r) < 0 THEN PIter(n, s) ELSE r
PFSqrt(a) ==
  IF a[1] = 0 THEN <<0>>
  ELSE LET n == Zeros(SCALE_LIMBS) \o Tail(a)
           start == Zeros((Len(n) + 1) \div 2) \o <<1>>
       IN  PMk(1, PIter(n, start))
\* from a TLC integer
RECURSIVE PLimbs(_)
PLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o PLimbs(n \div B)
PFInt(n) == IF n = 0 THEN <<0>>
            ELSE PMk(IF n > 0 THEN 1 ELSE -1,
                     Zeros(SCALE_LIMBS) \o PLimbs(IF n > 0 THEN n ELSE -n))
\* n * 10^(4k), k >= -4 : used for tolerances
PFPow(n, k) == IF n = 0 THEN <<0>>
               ELSE PMk(IF n > 0 THEN 1 ELSE -1,
                        Zeros(SCALE_LIMBS + k) \o PLimbs(IF n > 0 THEN n ELSE -n))
RECURSIVE PFDotFrom(_, _, _, _)
PFDotFrom(u, v, i, acc) ==
  IF i > Len(u) THEN acc ELSE PFDotFrom(u, v, i + 1, PFAdd(acc, PFMul(u[i], v[i])))
PFDot(u, v) == PFDotFrom(u, v, 1, <<0>>)
RECURSIVE PFSumFrom(_, _, _)
PFSumFrom(u, i, acc) ==
  IF i > Len(u) THEN acc ELSE PFSumFrom(u, i + 1, PFAdd(acc, u[i]))
PFSum(u) == PFSumFrom(u, 1, <<0>>)
PFAbs(a) == IF a[1] = -1 THEN PFNeg(a) ELSE a
RECURSIVE PFMaxAbsFrom(_, _, _)
PFMaxAbsFrom(u, i, acc) ==
  IF i > Len(u) THEN acc
  ELSE PFMaxAbsFrom(u, i + 1, IF PFCmp(acc, PFAbs(u[i])) < 0 THEN PFAbs(u[i]) ELSE acc)
PFMaxAbs(u) == PFMaxAbsFrom(u, 1, <<0>>)
=============================================================================
