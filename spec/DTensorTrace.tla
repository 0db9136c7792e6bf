---------------------------- MODULE DTensorTrace ----------------------------
(***************************************************************************)
(* Follows a recorded history of calls on dense-tensor objects (C08).  The *)
(* state is the value of every object: those the history started with and  *)
(* those the calls returned.  Every answer must be the operation on the    *)
(* values in the state, and every object must keep its value and shape.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
I == INSTANCE IntAlg
Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, i, vals, v
vars == <<c, i, vals, v>>
Has(r, f) == f \in DOMAIN r
Case == Cases[c]
Inc(q) == [k \in 1..Len(q) |-> q[k] + 1]
IncSet(q) == { q[k] + 1 : k \in 1..Len(q) }
ScalarT(x) == [s |-> <<>>, d |-> <<x>>]
\* element-wise, with a scalar second operand allowed
El(A, B, Op(_, _)) ==
  IF Len(B.d) = 1 THEN [s |-> A.s, d |-> [n \in 1..Len(A.d) |-> Op(A.d[n], B.d[1])]] ELSE I!ZipWith(A, B, Op)
\* second operand: object, or a value given in the event
Second(e) == IF Has(e, "p") THEN vals[e.p] ELSE e.arg
\* index: leading entries fixed (>= 0), -1 for a full slice
IndexOf(T, ix) ==
  LET n == Len(T.s)
      full == [k \in 1..n |-> IF k <= Len(ix) THEN ix[k] ELSE -1]
      keep == I!Rest(n, { k \in 1..n : full[k] # -1 })
      s == I!Pick(T.s, keep)
      F(jx) == I!At(T, [k \in 1..n |-> IF full[k] # -1 THEN full[k] ELSE jx[CHOOSE q \in 1..Len(keep) : keep[q] = k]])
  IN  I!Tab(s, F)
Add(x, y) == x + y
Sub(x, y) == x - y
Mul(x, y) == x * y
Ok(b, x) == IF b THEN "ok" ELSE x
Same(o, E) == ~Has(o, "bad") /\ o.s = E.s /\ o.d = E.d
Answer(e) ==
  LET T == vals[e.o] IN
  CASE e.op = "unfold" -> Ok(~Has(e.out, "bad") /\ I!WellFormed(e.out) /\ I!IsUnfolding(e.out, T, e.mode + 1), "unfold did not answer with the unfolding of the value")
    [] e.op = "t2mat" -> Ok(~Has(e.out, "bad") /\ I!IsFlattening(e.out, T, Inc(e.r), IF e.cinf THEN I!Rest(Len(T.s), IncSet(e.r)) ELSE Inc(e.c)),
                            "t2mat did not answer with the flattening of the value")
    [] e.op = "vectorize" -> Ok(Same(e.out, [s |-> <<Len(T.d)>>, d |-> T.d]), "vectorize did not answer with the elements in row-major order")
    [] e.op = "mul" -> Ok(Same(e.out, I!Contract(T, vals[e.p], Inc(e.pa), Inc(e.qa))), "mul did not answer with the contraction")
    [] e.op = "kron" -> Ok(Same(e.out, I!Kron(<<T, Second(e)>>)), "kron did not answer with the Kronecker product, own value first")
    [] e.op = "khatri" -> Ok(Same(e.out, I!Khatri(<<T, Second(e)>>)), "khatri did not answer with the Khatri-Rao product, own value first")
    [] e.op = "add" -> Ok(Same(e.out, El(T, Second(e), Add)), "+ did not answer with the sum")
    [] e.op = "sub" -> Ok(Same(e.out, El(T, Second(e), Sub)), "- did not answer with the difference, own value first")
    [] e.op = "had" -> Ok(Same(e.out, El(T, Second(e), Mul)), "* did not answer with the element-wise product")
    [] e.op = "index" -> Ok(Same(e.out, IndexOf(T, e.ix)), "indexing did not answer with the element or slice")
    [] e.op = "fold" -> Ok(~Has(e.out, "bad") /\ e.out.s = e.s /\ I!WellFormed(e.out) /\ I!IsUnfolding(e.arg, e.out, e.mode + 1), "fold did not answer with the folded matrix")
    [] e.op = "eval" -> Ok(Same(e.out, T), "eval did not answer with the value")
    [] e.op = "shape" -> Ok(e.out.d = T.s, "get_shape did not answer with the sizes")
Verdict(e) ==
  IF Has(e, "err") THEN "a call raised " \o e.err
  ELSE LET a == Answer(e) IN
       IF a # "ok" THEN a
       ELSE IF Has(e, "shp") /\ e.shp # e.out.s THEN "the returned object has a wrong shape attribute"
       ELSE IF \E k \in 1..Len(e.after) : ~Same(e.after[k].T, vals[e.after[k].o]) THEN "a call changed the value of an object"
       ELSE IF \E k \in 1..Len(e.after) : e.after[k].shape # vals[e.after[k].o].s THEN "a call changed the shape of an object"
       ELSE "ok"
Init == /\ c \in 1..Len(Cases) /\ i = 0 /\ vals = Cases[c].objs
        /\ v = IF Has(Cases[c], "err") THEN "the run ended without a result" ELSE "ok"
Next == /\ v = "ok" /\ i < Len(Case.ev)
        /\ i' = i + 1 /\ c' = c
        /\ LET e == Case.ev[i + 1] IN
           /\ v' = Verdict(e)
           /\ vals' = IF Has(e, "out") /\ Has(e, "new") THEN Append(vals, e.out) ELSE vals
Judge == IF v = "ok" THEN (i = Len(Case.ev) => PrintT(<<"DONE", Case.id, i>>)) ELSE PrintT(<<"FAIL", Case.id, v>>)
=============================================================================
