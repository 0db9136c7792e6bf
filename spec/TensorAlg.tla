----------------------------- MODULE TensorAlg -----------------------------
(***************************************************************************)
(* Multilinear algebra by its index-level definitions, over any ring.      *)
(* A tensor is a record [s |-> sizes, d |-> elements in row-major order];  *)
(* index vectors are 0-based tuples, modes are numbered from 1 here (the   *)
(* code numbers them from 0).  Instances: IntAlg over Int, FxAlg over Fx.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Zero, One, Add(_, _), Mul(_, _), Dot(_, _)

RECURSIVE ProdFrom(_, _)
ProdFrom(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdFrom(s, i + 1)
Prod(s) == ProdFrom(s, 1)

Order(T) == Len(T.s)
WellFormed(T) == Len(T.d) = Prod(T.s)

\* strides of the row-major numbering
Strides(s) == [k \in 1..Len(s) |-> ProdFrom(s, k + 1)]
\* the index vector of element number n (0-based), given the strides
IdxOf(s, str, n) == [k \in 1..Len(s) |-> (n \div str[k]) % s[k]]
Idx(s, n) == LET str == TLCEval(Strides(s)) IN TLCEval(IdxOf(s, str, n))
RECURSIVE PosFrom(_, _, _, _)
PosFrom(s, ix, k, acc) == IF k > Len(s) THEN acc ELSE PosFrom(s, ix, k + 1, acc * s[k] + ix[k])
\* element number (0-based) of an index vector
Pos(s, ix) == PosFrom(s, ix, 1, 0)
At(T, ix) == T.d[Pos(T.s, ix) + 1]
\* the tensor of sizes s with F(ix) at index vector ix
Tab(s, F(_)) == LET str == TLCEval(Strides(s)) IN
  [s |-> s, d |-> TLCEval([n \in 1..Prod(s) |-> F(TLCEval(IdxOf(s, str, n - 1)))])]
Mat(r, c, F(_, _)) ==
  [s |-> <<r, c>>, d |-> TLCEval([n \in 1..(r * c) |-> F((n - 1) \div c, (n - 1) % c)])]
M(A, i, j) == A.d[i * A.s[2] + j + 1]

\* --- sequences of modes --------------------------------------------------
RECURSIVE AscFrom(_, _, _)
AscFrom(k, n, Skip) == IF k > n THEN <<>>
                       ELSE IF k \in Skip THEN AscFrom(k + 1, n, Skip)
                       ELSE <<k>> \o AscFrom(k + 1, n, Skip)
\* the modes 1..n without those in Skip, ascending
Rest(n, Skip) == AscFrom(1, n, Skip)
SetOf(q) == { q[i] : i \in 1..Len(q) }
Pick(v, q) == [i \in 1..Len(q) |-> v[q[i]]]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Filter(q, Skip) == Pick(q, Rest(Len(q), Skip))

\* --- unfolding -----------------------------------------------------------
\* Kolda column number: sum over k # m of ix[k] * prod of the sizes of the
\* modes l < k, l # m
RECURSIVE ColFrom(_, _, _, _, _)
ColFrom(s, ix, m, k, w) ==
  IF k > Len(s) THEN 0
  ELSE IF k = m THEN ColFrom(s, ix, m, k + 1, w)
  ELSE ix[k] * w + ColFrom(s, ix, m, k + 1, w * s[k])
KoldaCol(s, ix, m) == ColFrom(s, ix, m, 1, 1)
\* U is the mode-m unfolding of T: every element of T sits at its row and column
IsUnfolding(U, T, m) ==
  /\ U.s = <<T.s[m], Prod(T.s) \div T.s[m]>>
  /\ WellFormed(U)
  /\ LET str == TLCEval(Strides(T.s)) IN
     \A n \in 1..Prod(T.s) :
       LET ix == TLCEval(IdxOf(T.s, str, n - 1)) IN M(U, ix[m], KoldaCol(T.s, ix, m)) = T.d[n]
Unfold(T, m) ==
  \* column j decoded by the rest modes, lowest fastest = row-major in reversed order
  LET rs == Rev(Rest(Len(T.s), {m}))
      perm == <<m>> \o rs
      sz == Pick(T.s, perm)
      F(jx) == At(T, [k \in 1..Len(T.s) |-> jx[CHOOSE q \in 1..Len(perm) : perm[q] = k]])
  IN  [s |-> <<T.s[m], Prod(T.s) \div T.s[m]>>, d |-> Tab(sz, F).d]

\* --- general flattening --------------------------------------------------
IsFlattening(U, T, R, C) ==      \* R, C: row and column modes, in order
  LET rz == TLCEval(Pick(T.s, R)) cz == TLCEval(Pick(T.s, C)) IN
  /\ U.s = <<Prod(rz), Prod(cz)>>
  /\ WellFormed(U)
  /\ LET str == TLCEval(Strides(T.s)) IN
     \A n \in 1..Prod(T.s) :
       LET ix == TLCEval(IdxOf(T.s, str, n - 1))
       IN  M(U, Pos(rz, Pick(ix, R)), Pos(cz, Pick(ix, C))) = T.d[n]

\* --- products ------------------------------------------------------------
Sum(u) == Dot(u, [i \in 1..Len(u) |-> One])

\* contraction of modes p[i] of A with modes q[i] of B
Contract(A, B, p, q) ==
  LET ra == Rest(Order(A), SetOf(p))  rb == Rest(Order(B), SetOf(q))
      sa == TLCEval(Pick(A.s, ra))    sb == TLCEval(Pick(B.s, rb))
      sc == TLCEval(Pick(A.s, p))
      na == Prod(sa)  nb == Prod(sb)  nc == Prod(sc)
      \* elements of A at rest index i, contracted index k
      AtA(i, k) == LET x == Idx(sa, i) y == Idx(sc, k) IN
                   At(A, [m \in 1..Order(A) |->
                        IF m \in SetOf(p) THEN y[CHOOSE z \in 1..Len(p) : p[z] = m]
                        ELSE x[CHOOSE z \in 1..Len(ra) : ra[z] = m]])
      AtB(j, k) == LET x == Idx(sb, j) y == Idx(sc, k) IN
                   At(B, [m \in 1..Order(B) |->
                        IF m \in SetOf(q) THEN y[CHOOSE z \in 1..Len(q) : q[z] = m]
                        ELSE x[CHOOSE z \in 1..Len(rb) : rb[z] = m]])
      rowsA == TLCEval([i \in 1..na |-> TLCEval([k \in 1..nc |-> AtA(i - 1, k - 1)])])
      rowsB == TLCEval([j \in 1..nb |-> TLCEval([k \in 1..nc |-> AtB(j - 1, k - 1)])])
  IN  [s |-> sa \o sb,
       d |-> TLCEval([n \in 1..(na * nb) |->
                Dot(rowsA[((n - 1) \div nb) + 1], rowsB[((n - 1) % nb) + 1])])]

Transpose(A) == Mat(A.s[2], A.s[1], LAMBDA i, j : M(A, j, i))
RowsOf(A) == TLCEval([i \in 1..A.s[1] |-> SubSeq(A.d, (i - 1) * A.s[2] + 1, i * A.s[2])])
MatMul(A, B) ==
  LET ra == RowsOf(A) rb == RowsOf(Transpose(B)) IN
  Mat(A.s[1], B.s[2], LAMBDA i, j : Dot(ra[i + 1], rb[j + 1]))
\* A^T A
Gram(A) == MatMul(Transpose(A), A)

\* mode-n product with a matrix (J x s[n])
ModeProd(T, A, n) ==
  LET s2 == TLCEval([T.s EXCEPT ![n] = A.s[1]])
      rows == RowsOf(A)
      w == ProdFrom(T.s, n + 1)         \* stride of mode n in T
      F(ix) == LET base == Pos(T.s, [ix EXCEPT ![n] = 0])
               IN  Dot(rows[ix[n] + 1], TLCEval([i \in 1..T.s[n] |-> T.d[base + (i - 1) * w + 1]]))
  IN  Tab(s2, F)
\* successive mode products: matrix As[i] on mode modes[i]
RECURSIVE TtmFrom(_, _, _, _)
TtmFrom(T, As, modes, i) ==
  IF i > Len(As) THEN T ELSE TtmFrom(ModeProd(T, As[i], modes[i]), As, modes, i + 1)
Ttm(T, As, modes) == TtmFrom(T, As, modes, 1)

RECURSIVE KronFrom(_, _)
Kron2(A, B) == Mat(A.s[1] * B.s[1], A.s[2] * B.s[2],
                   LAMBDA i, j : Mul(M(A, i \div B.s[1], j \div B.s[2]),
                                     M(B, i % B.s[1], j % B.s[2])))
KronFrom(As, i) == IF i = Len(As) THEN As[i] ELSE Kron2(As[i], KronFrom(As, i + 1))
Kron(As) == KronFrom(As, 1)
RECURSIVE KhatriFrom(_, _)
Khatri2(A, B) == Mat(A.s[1] * B.s[1], A.s[2],
                     LAMBDA i, j : Mul(M(A, i \div B.s[1], j), M(B, i % B.s[1], j)))
KhatriFrom(As, i) == IF i = Len(As) THEN As[i] ELSE Khatri2(As[i], KhatriFrom(As, i + 1))
Khatri(As) == KhatriFrom(As, 1)

ZipWith(A, B, Op(_, _)) == [s |-> A.s, d |-> TLCEval([n \in 1..Len(A.d) |-> Op(A.d[n], B.d[n])])]
MapT(A, Op(_)) == [s |-> A.s, d |-> TLCEval([n \in 1..Len(A.d) |-> Op(A.d[n])])]
RECURSIVE HadFrom(_, _)
HadFrom(As, i) == IF i = Len(As) THEN As[i] ELSE ZipWith(As[i], HadFrom(As, i + 1), Mul)
Hadamard(As) == HadFrom(As, 1)

\* sum over r of w[r] * outer product of the r-th columns
Kruskal(Us, w) ==
  LET s == [k \in 1..Len(Us) |-> Us[k].s[1]]
      R == Us[1].s[2]
      RECURSIVE ColProd(_, _, _)
      ColProd(ix, r, k) == IF k = 0 THEN w[r] ELSE Mul(ColProd(ix, r, k - 1), M(Us[k], ix[k], r - 1))
      F(ix) == Sum(TLCEval([r \in 1..R |-> ColProd(ix, r, Len(Us))]))
  IN  Tab(s, F)
Tucker(G, Us) == Ttm(G, Us, [k \in 1..Len(Us) |-> k])
\* sum over nonzero X[i,j,k] of X[i,j,k] * C[k,r] * B[j,r]
Xcb(X, C, Bm) ==
  Mat(X.s[1], C.s[2], LAMBDA i, r :
    Sum(TLCEval([n \in 1..(X.s[2] * X.s[3]) |->
       LET j == (n - 1) \div X.s[3]  k == (n - 1) % X.s[3]
       IN  Mul(Mul(At(X, <<i, j, k>>), M(C, k, r)), M(Bm, j, r))])))
=============================================================================
