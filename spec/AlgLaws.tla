------------------------------ MODULE AlgLaws ------------------------------
(***************************************************************************)
(* The identities of multilinear algebra that the operators of TensorAlg   *)
(* must obey, checked on all small shapes.  Every law is linear in each of *)
(* its arguments, so it holds for all values over any commutative ring     *)
(* once it holds for all tensors with a single entry One: those are what   *)
(* the arguments range over.                                               *)
(***************************************************************************)
EXTENDS IntAlg, TLC
CONSTANTS Laws,     \* which family of laws
          N,        \* largest order
          S,        \* largest size of a mode
          R         \* largest rank
VARIABLE x

Unit(s, n) == [s |-> s, d |-> [k \in 1..Prod(s) |-> IF k = n THEN 1 ELSE 0]]
Units(s) == { Unit(s, n) : n \in 1..Prod(s) }
Shapes(n, top) == UNION { [1..k -> 1..top] : k \in 1..n }
Seqs(n, top) == { [i \in 1..Len(f) |-> f[i]] : f \in Shapes(n, top) }
Sz == Seqs(N, S)
\* sequences of unit matrices with the given numbers of rows and columns
RECURSIVE Mats(_, _, _)
Mats(r, c, i) == IF i > Len(r) THEN { <<>> } ELSE { <<A>> \o q : A \in Units(<<r[i], c[i]>>), q \in Mats(r, c, i + 1) }
Const(n, v) == [i \in 1..n |-> v]
Inj(n) == UNION { { q \in [1..k -> 1..n] : \A i, j \in 1..k : i # j => q[i] # q[j] } : k \in 0..n }
AsSeq(q) == [i \in 1..Len(q) |-> q[i]]
RevRest(n, m) == Rev(Rest(n, {m}))
Inner(A, B) == IDot(A.d, B.d)
Same(A, B) == A.s = B.s /\ A.d = B.d
Permute(T, q) == Tab(Pick(T.s, q), LAMBDA ix : At(T, [m \in 1..Len(q) |-> ix[CHOOSE k \in 1..Len(q) : q[k] = m]]))
Diag(w) == Mat(Len(w), Len(w), LAMBDA i, j : IF i = j THEN w[i + 1] ELSE 0)
Super(w, n) == Tab(Const(n, Len(w)), LAMBDA ix : IF \A k \in 1..n : ix[k] = ix[1] THEN w[ix[1] + 1] ELSE 0)

\* first the sizes are chosen, then the arguments
Ranks(s) == { c \in Seqs(N, R) : Len(c) = Len(s) }
Args(s) ==
  CASE Laws = "places"  -> { [T |-> T] : T \in Units(s) }
    [] Laws = "product" -> UNION { UNION { { [T |-> T, m |-> m, A |-> A] : A \in Units(<<j, s[m]>>), T \in Units(s) } : j \in 1..R } : m \in 1..Len(s) }
    [] Laws = "lists"   -> IF Len(s) = 1 THEN {} ELSE UNION { { [q |-> q] : q \in Mats(s, c, 1) } : c \in Ranks(s) }
    [] Laws = "tucker"  -> UNION { { [G |-> G, q |-> q] : G \in Units(c), q \in Mats(s, c, 1) } : c \in Ranks(s) }
    [] Laws = "kruskal" -> UNION { { [w |-> w, q |-> q] : w \in { Unit(<<r>>, i).d : i \in 1..r }, q \in Mats(s, Const(Len(s), r), 1) } : r \in 1..R }
    [] Laws = "pair"    -> UNION { { [T |-> T, Y |-> Y] : T \in Units(s), Y \in Units(t) } : t \in { t \in Sz : t = s \/ (Len(t) <= 2 /\ Len(s) <= 2) } }
Chosen == "s" \notin DOMAIN x
Init == x \in { [s |-> s] : s \in Sz }
Next == ~Chosen /\ x' \in Args(x.s)
Spec == Init /\ [][Next]_x

Modes(T) == 1..Len(T.s)
\* an unfolding is the flattening with one row mode and the others from last to first, and puts every entry where Kolda's number says
Places ==
  /\ \A m \in Modes(x.T) :
       LET U == Unfold(x.T, m) IN
       /\ IsUnfolding(U, x.T, m)
       /\ IsFlattening(U, x.T, <<m>>, RevRest(Len(x.T.s), m))
       /\ \A V \in Units(U.s) : Same(U, V) <=> IsUnfolding(V, x.T, m)      \* no other place
  /\ Same(Permute(x.T, AsSeq(Rev(Rest(Len(x.T.s), {})))), Tab(Rev(x.T.s), LAMBDA ix : At(x.T, Rev(ix))))
Product ==
  LET Y == ModeProd(x.T, x.A, x.m) n == Len(x.T.s) IN
  /\ Same(Unfold(Y, x.m), MatMul(x.A, Unfold(x.T, x.m)))
  \* a contraction puts the new mode last
  /\ Same(Contract(x.T, x.A, <<x.m>>, <<2>>), Permute(Y, Rest(n, {x.m}) \o <<x.m>>))
  \* products on different modes commute, on the same mode they compose
  /\ \A k \in 1..n, j \in 1..2 : k # x.m =>
       \A B \in Units(<<j, x.T.s[k]>>) : Same(ModeProd(Y, B, k), ModeProd(ModeProd(x.T, B, k), x.A, x.m))
  /\ \A B \in Units(<<2, x.A.s[1]>>) : Same(ModeProd(Y, B, x.m), ModeProd(x.T, MatMul(B, x.A), x.m))
  \* the transposed matrix is the adjoint
  /\ \A Z \in Units(Y.s) : Inner(Y, Z) = Inner(x.T, ModeProd(Z, Transpose(x.A), x.m))
  /\ Same(Ttm(x.T, <<x.A>>, <<x.m>>), Y)
Lists ==
  LET q == x.q n == Len(q) IN
  /\ Same(Kron2(Kron(SubSeq(q, 1, n - 1)), q[n]), Kron(q))
  /\ Same(Transpose(Kron(q)), Kron([i \in 1..n |-> Transpose(q[i])]))
  \* mixed product
  /\ n = 2 => \A C \in Units(<<q[1].s[2], 2>>), D \in Units(<<q[2].s[2], 1>>) :
                Same(MatMul(Kron(q), Kron(<<C, D>>)), Kron(<<MatMul(q[1], C), MatMul(q[2], D)>>))
  /\ (\A i \in 1..n : q[i].s[2] = q[1].s[2]) =>
       /\ Same(Khatri2(Khatri(SubSeq(q, 1, n - 1)), q[n]), Khatri(q))
       \* columns of Khatri-Rao are Kronecker products of columns
       /\ \A r \in 0..(q[1].s[2] - 1) :
            LET col(A) == Mat(A.s[1], 1, LAMBDA i, j : M(A, i, r)) IN Same(col(Khatri(q)), Kron([i \in 1..n |-> col(q[i])]))
       \* Gram matrices multiply entry by entry (polarised: C and D are independent of q)
       /\ n = 2 => \A C \in Units(q[1].s), D \in Units(q[2].s) :
                     Same(MatMul(Transpose(Khatri(q)), Khatri(<<C, D>>)), Hadamard(<<MatMul(Transpose(q[1]), C), MatMul(Transpose(q[2]), D)>>))
  /\ (\A i \in 1..n : q[i].s = q[1].s) => Same(Hadamard(q), Hadamard(Rev(q)))
TuckerLaw ==
  LET T == Tucker(x.G, x.q) n == Len(x.q) IN
  /\ \A m \in 1..n : Same(Unfold(T, m), IF n = 1 THEN MatMul(x.q[m], Unfold(x.G, m))
                                        ELSE MatMul(MatMul(x.q[m], Unfold(x.G, m)), Transpose(Kron(Pick(x.q, RevRest(n, m))))))
  /\ Same(T, Ttm(x.G, Rev(x.q), Rev(Rest(n, {}))))
  /\ \A Z \in Units(T.s) : Inner(T, Z) = Inner(x.G, Tucker(Z, [i \in 1..n |-> Transpose(x.q[i])]))
KruskalLaw ==
  LET T == Kruskal(x.q, x.w) n == Len(x.q) IN
  /\ Same(T, Tucker(Super(x.w, n), x.q))
  /\ n > 1 => \A m \in 1..n : Same(Unfold(T, m), MatMul(MatMul(x.q[m], Diag(x.w)), Transpose(Khatri(Pick(x.q, RevRest(n, m))))))
  /\ n > 1 => Same([s |-> <<Prod(T.s), 1>>, d |-> T.d], MatMul(Khatri(x.q), [s |-> <<Len(x.w), 1>>, d |-> x.w]))
  \* the kernel of CP-ALS on a third-order tensor
  /\ n = 3 => \A X \in Units(T.s) : Same(Xcb(X, x.q[3], x.q[2]), MatMul(Unfold(X, 1), Khatri(<<x.q[3], x.q[2]>>)))
PairLaw ==
  LET a == Len(x.T.s) b == Len(x.Y.s) IN
  /\ x.T.s = x.Y.s => /\ Contract(x.T, x.Y, Rest(a, {}), Rest(a, {})) = [s |-> <<>>, d |-> <<Inner(x.T, x.Y)>>]
                      /\ \A m \in 1..a : Inner(x.T, x.Y) = Inner(Unfold(x.T, m), Unfold(x.Y, m))
                      \* the order in which the pairs are listed does not matter
                      /\ Contract(x.T, x.Y, Rev(Rest(a, {})), Rev(Rest(a, {}))).d = <<Inner(x.T, x.Y)>>
  /\ a <= 2 /\ b <= 2 => \A p \in Inj(a) : \A q \in Inj(b) :
       Len(p) = Len(q) /\ (\A i \in 1..Len(p) : x.T.s[p[i]] = x.Y.s[q[i]]) =>
         \* contraction is commutative up to the order of the modes
         LET C == Contract(x.T, x.Y, AsSeq(p), AsSeq(q))
             D == Contract(x.Y, x.T, AsSeq(q), AsSeq(p))
             u == a - Len(p) v == b - Len(p)
         IN  C.s # <<>> => Same(C, Permute(D, [i \in 1..(u + v) |-> IF i <= u THEN v + i ELSE i - u]))
\* refuted: the other modes in increasing order do not give the rows of the unfolding
Ascending == Chosen => LET n == Len(x.q) IN n = 3 => \A m \in 1..n : Same(Unfold(Tucker(x.G, x.q), m), MatMul(MatMul(x.q[m], Unfold(x.G, m)), Transpose(Kron(Pick(x.q, Rest(n, {m}))))))
Law == Chosen => CASE Laws = "places" -> Places [] Laws = "product" -> Product [] Laws = "lists" -> Lists
         [] Laws = "tucker" -> TuckerLaw [] Laws = "kruskal" -> KruskalLaw [] Laws = "pair" -> PairLaw
=============================================================================
