------------------------------ MODULE OpsGen ------------------------------
(***************************************************************************)
(* Exhaustive small-scope call sets for the tensor operations.  The state  *)
(* machine picks a case of the kind named by the environment variable KIND *)
(* in one step; the reachable cases are written to OUT_FILE as JSON and    *)
(* replayed on the code by drv/ops.py.  BOUND scales the scope.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Kind == IOEnv.KIND
Big == IOEnv.BOUND = "big"

Shapes(lo, hi, Sizes) == UNION { [1..k -> Sizes] : k \in lo..hi }
Perms(S) == { q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i # j => q[i] # q[j] }
\* ordered selections (injective sequences) of elements of S
Selections(S) == UNION { Perms(R) : R \in SUBSET S }
Modes(s) == 0..(Len(s) - 1)

Unfolds == { [op |-> "unfold", s |-> s, mode |-> m, deflt |-> FALSE] :
             <<s, m>> \in { p \in Shapes(1, IF Big THEN 5 ELSE 4, {1, 2, 3}) \X (0..4) : p[2] < Len(p[1]) } }
           \cup { [op |-> "unfold", s |-> s, mode |-> 0, deflt |-> TRUE] : s \in Shapes(1, 3, {1, 2, 3}) }

Folds == { [op |-> "fold", s |-> s, mode |-> m, tup |-> t] :
           <<s, m, t>> \in { p \in Shapes(1, IF Big THEN 5 ELSE 4, {1, 2, 3}) \X (0..4) \X BOOLEAN : p[2] < Len(p[1]) } }
Vecs == { [op |-> o, s |-> s] : o \in {"vectorize", "vec2t"}, s \in Shapes(1, 4, {1, 2, 3}) }

\* every ordered split of the modes into rows and columns
T2mats ==
  LET Cases(s) == { [op |-> "t2mat", s |-> s, r |-> SubSeq(q, 1, k), c |-> SubSeq(q, k + 1, Len(q)), cinf |-> FALSE] :
                      <<q, k>> \in Perms(Modes(s)) \X (0..Len(s)) }
      Infer(s) == { [op |-> "t2mat", s |-> s, r |-> q, c |-> <<>>, cinf |-> TRUE] : q \in Selections(Modes(s)) }
  IN  UNION { Cases(s) \cup Infer(s) : s \in Shapes(1, 3, {1, 2, 3}) \cup (IF Big THEN Shapes(4, 4, {1, 2, 3}) ELSE Shapes(4, 4, {2}) \cup {<<3, 1, 2, 2>>, <<2, 3, 4, 5>>}) }

Muls ==
  LET Ss == Shapes(1, 2, {1, 2, 3}) \cup (IF Big THEN Shapes(3, 3, {1, 2, 3}) ELSE {<<2, 3, 2>>, <<3, 3, 2>>})
      Pair(a, b) == { [op |-> "mul", a |-> a, b |-> b, p |-> p, q |-> q] :
                      <<p, q>> \in { z \in Selections(Modes(a)) \X Selections(Modes(b)) :
                                     /\ Len(z[1]) = Len(z[2])
                                     /\ \A i \in 1..Len(z[1]) : a[z[1][i] + 1] = b[z[2][i] + 1] } }
  IN  UNION { Pair(a, b) : a \in Ss, b \in Ss }

\* matrix i has rows 2 + (its position modulo 2) so that sizes change
Ttms ==
  LET Ss == Shapes(1, 2, {1, 2, 3}) \cup (IF Big THEN Shapes(3, 4, {1, 2, 3}) ELSE {<<2, 3, 4>>, <<3, 3, 3>>, <<2, 1, 3>>, <<2, 3, 1, 2>>})
      ByAxis(s) == { [op |-> "ttm", s |-> s, how |-> "axis", axis |-> q, tr |-> t] :
                      <<q, t>> \in { q \in Selections(Modes(s)) : q # <<>> } \X BOOLEAN }
      BySkip(s) == { [op |-> "ttm", s |-> s, how |-> "skip", axis |-> SetToSortSeq(K, <), tr |-> t] :
                      <<K, t>> \in { K \in SUBSET Modes(s) : K # Modes(s) } \X BOOLEAN }
      Dflt(s) == { [op |-> "ttm", s |-> s, how |-> "default", axis |-> <<n>>, tr |-> t] : n \in 1..Len(s), t \in BOOLEAN }
  IN  UNION { ByAxis(s) \cup BySkip(s) \cup Dflt(s) : s \in Ss }

Lists ==
  LET Shp == { <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 2>>, <<2, 3>> }
      L(n) == IF n = 3 /\ ~Big THEN [1..n -> {<<1, 2>>, <<2, 1>>, <<2, 3>>, <<3, 2>>}] ELSE [1..n -> Shp]
      Skips(n) == { K \in SUBSET (0..(n - 1)) : Cardinality(K) < n }
      Case(o, l, K, r) == [op |-> o, ms |-> l, skip |-> SetToSortSeq(K, <), rev |-> r]
      Same2(l) == \A i \in DOMAIN l : l[i][2] = l[1][2]
      Same(l) == \A i \in DOMAIN l : l[i] = l[1]
  IN  UNION { { Case("kron", l, K, r) : l \in L(n), K \in Skips(n), r \in BOOLEAN } : n \in 1..(IF Big THEN 3 ELSE 2) }
      \cup { Case("kron", l, {}, r) : l \in L(3), r \in BOOLEAN }
      \cup UNION { { Case("khatri", l, K, r) : l \in { x \in L(n) : Same2(x) }, K \in Skips(n), r \in BOOLEAN } : n \in 1..3 }
      \cup UNION { { Case("hadamard", l, K, FALSE) : l \in { x \in L(n) : Same(x) }, K \in Skips(n) } : n \in 1..3 }

Cases == CASE Kind = "unfold" -> Unfolds
           [] Kind = "fold" -> Folds \cup Vecs
           [] Kind = "t2mat" -> T2mats
           [] Kind = "mul" -> Muls
           [] Kind = "ttm" -> Ttms
           [] Kind = "lists" -> Lists

VARIABLE done
Init == done = FALSE
Write == /\ done = FALSE
         /\ JsonSerialize(IOEnv.OUT_FILE, SetToSeq(Cases))
         /\ done' = TRUE
Next == Write \/ (done /\ UNCHANGED done)
=============================================================================
