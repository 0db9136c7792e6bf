------------------------------- MODULE CpLoop -------------------------------
(***************************************************************************)
(* Alternating least squares as a loop over modes, on small concrete data: *)
(* each update solves the normal equations of one mode with the newest     *)
(* factors and divides its columns by their largest entries (C12, C34).    *)
(* Broken variants: "jacobi" uses the factors of the previous sweep,       *)
(* "first" keeps the weights of the first mode, "gram" forgets one Gram    *)
(* matrix.                                                                 *)
(***************************************************************************)
EXTENDS Algo
CONSTANTS Broken, Sweeps
Shape == <<2, 2, 2>>
Ten(s, q) == [s |-> s, d |-> [i \in 1..Len(q) |-> FInt(q[i])]]
VARIABLES X, A, old, lam, lam1, m, sweep, obj, before
vars == <<X, A, old, lam, lam1, m, sweep, obj, before>>
Entries == {1, 4}
Starts == { <<Ten(<<2, 2>>, <<1, 2, 3, 1>>), Ten(<<2, 2>>, <<2, 1, 1, 2>>), Ten(<<2, 2>>, <<1, 3, 2, 1>>)>>,
            <<Ten(<<2, 1>>, <<1, 2>>), Ten(<<2, 1>>, <<3, 1>>), Ten(<<2, 1>>, <<1, 1>>)>> }
Obj(B, w) == Objective(Kruskal(B, w), X)
Big == FInt(100000)
Init == /\ \E q \in [1..7 -> Entries] : X = Ten(Shape, <<2>> \o [i \in 1..7 |-> q[i]])
        /\ A \in Starts /\ old = A
        /\ lam = [r \in 1..A[1].s[2] |-> FOne] /\ lam1 = lam
        /\ m = 1 /\ sweep = 1 /\ obj = Big /\ before = Big
Update ==
  /\ sweep <= Sweeps
  /\ LET B == IF Broken = "jacobi" THEN old ELSE A
         ls == CpLS(X, B, m)
         V == GramHad(B, m)
         N == IF Broken = "gram" THEN MatMul(Mttkrp(X, B, m), Inverse(Gram(B[IF m = 1 THEN 2 ELSE 1])).X) ELSE ls.N
         w == [r \in 1..N.s[2] |-> ColMaxOf(N, r)]
     IN /\ ls.ok
        /\ \A r \in 1..N.s[2] : FLe(FDiv(FOne, FInt(100)), FAbs(w[r]))
        /\ LET P == Mat(N.s[1], N.s[2], LAMBDA i, r : FDiv(M(N, i, r), w[r + 1]))
               A2 == [A EXCEPT ![m] = P]
               w2 == IF Broken = "first" /\ m > 1 THEN lam1 ELSE w
           IN /\ A' = A2
              /\ lam' = w2
              /\ lam1' = IF m = 1 THEN w ELSE lam1
              /\ before' = obj
              /\ obj' = TLCEval(Obj(A2, w2))
              /\ old' = IF m = 3 THEN A2 ELSE old
  /\ m' = IF m = 3 THEN 1 ELSE m + 1
  /\ sweep' = IF m = 3 THEN sweep + 1 ELSE sweep
  /\ X' = X
Spec == Init /\ [][Update]_vars
\* no update increases the objective
Descends == FLe(obj, FAdd(before, E6(1)))
\* every column of an updated factor has an entry one (its largest, unless all of the column is negative)
Unit == \A k \in 1..3 : (sweep > 1 \/ k < m) => \A r \in 1..A[k].s[2] :
          \E i \in 1..A[k].s[1] : FLe(FAbs(FSub(M(A[k], i - 1, r - 1), FOne)), E6(1))
=============================================================================
