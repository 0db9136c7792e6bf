------------------------------ MODULE ExpTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the experiment, ratings and demo scripts (C37).        *)
(* A case is a history of runs in one directory:                           *)
(*   runs[k].script, kind ("ex", "ml", "demo", "multi"), m, n, g, d, t     *)
(*     models  what was built and trained: cls, ranks, x (the data it was  *)
(*             built on), hist (what train returned)                       *)
(*     files   all result files after the run: name parts, print (a        *)
(*             fingerprint of the content), and for files that changed     *)
(*             the lines                                                   *)
(*     said    numbers printed on lines of their own (multigraph_demo)     *)
(***************************************************************************)
EXTENDS TraceLanes, FxAlg, ExpFiles
If(b, x) == IF b THEN "ok" ELSE x
RECURSIVE FirstFrom(_, _)
FirstFrom(q, k) == IF k > Len(q) THEN "ok" ELSE IF q[k] # "ok" THEN q[k] ELSE FirstFrom(q, k + 1)
FirstOk(q) == FirstFrom(q, 1)
MinI(a, b) == IF a < b THEN a ELSE b
RankEps == FPow(100, -3)
RankOf(T, m) ==
  LET big == MaxAbs(T)
      U == Unfold(IF big = FZero THEN T ELSE DivBy(T, big), m)
      G == IF U.s[1] < U.s[2] THEN MatMul(U, Transpose(U)) ELSE Gram(U)
  IN  CountAbove(G, FMul(RankEps, Trace(G)))
NonNeg(T) == \A k \in 1..Len(T.d) : PIsFin(T.d[k]) /\ T.d[k][1] \in {0, 1}

Class(m) == CASE m = "cp" -> "CP_ALS" [] m = "ncp" -> "NCP_BCU" [] m = "ntucker" -> "NTUCKER_BCU" [] m \in {"tucker", "hooi"} -> "HOOI"
RanksOf(m, d) == IF m \in {"cp", "ncp"} THEN <<d>> ELSE <<d, d, d>>
\* the largest multilinear rank of noiseless data
Full(r, m) ==
  LET n == r.n[m] o == Prod(r.n) \div n
      e == [k \in 1..3 |-> MinI(r.g, r.n[k])]
  IN  IF r.m = "cp" \/ r.m = "ncp" THEN MinI(r.g, MinI(n, o)) ELSE MinI(e[m], Prod(e) \div e[m])
Noiseless(r) == r.kind = "ex" /\ r.m # "tucker"

\* a line shows a number to ten decimals
Ten == <<1, 2, 50>>                                  \* half a unit of the tenth decimal
Shows(l, p) ==
  IF Has(l, "bad") THEN FALSE
  ELSE \A k \in 1..2 : IF PIsFin(p[k]) THEN PIsFin(l.v[k]) /\ FLe(FAbs(FSub(l.v[k], p[k])), Ten) ELSE l.v[k] = p[k]
Data(r) ==
  LET x == r.models[1].x IN
  IF r.kind = "ml" THEN
    FirstOk(<<If(x.s = r.n, "the ratings tensor has another shape"),
              If({ x.at[k] : k \in 1..Len(x.at) } = { r.csv[k] : k \in 1..Len(r.csv) }, "the model is not built on the ratings of the file")>>)
  ELSE IF x.s # r.n THEN "the data have other sizes"
  ELSE IF ~NonNeg(x) THEN "the data have a negative or no number"
  ELSE IF Noiseless(r) /\ \E m \in 1..3 : RankOf(x, m) > Full(r, m) THEN "the data exceed the generation rank"
  ELSE "ok"
Named(r) == IF r.kind = "ml" THEN [r EXCEPT !.m = r.m \o "_ml"] ELSE r
Own(r, fs) == { k \in 1..Len(fs) : fs[k].name = Name(Named(r)) }
File(r, before) ==
  LET o == Own(r, r.files)
      h == r.models[1].hist
  IN  IF o = {} THEN "the run left no file of its name"
      ELSE LET f == r.files[CHOOSE k \in o : TRUE] IN
      IF ~Has(f, "lines") THEN "the file of the run was not written"
      ELSE IF Len(f.lines) # Len(h) THEN "the file has not one line per executed step"
      ELSE IF \E k \in 1..Len(h) : ~Shows(f.lines[k], h[k]) THEN "a line is not the loss and residual of its step to ten decimals"
      \* the other files are as before (ExpFiles!After)
      ELSE LET was == [x \in { before[k].name : k \in 1..Len(before) } |-> before[CHOOSE k \in 1..Len(before) : before[k].name = x].print]
               now == [x \in { r.files[k].name : k \in 1..Len(r.files) } |-> r.files[CHOOSE k \in 1..Len(r.files) : r.files[k].name = x].print]
           IN  If(now = After(was, Named(r), f.print), "a file of another run was changed, removed or added")
Multi(r) ==
  IF Len(r.models) # 3 \/ Len(r.said) # 3 THEN "not three models were trained and reported"
  ELSE LET One(k) ==
             LET f == r.models[k].full x == r.models[k].x IN
             IF f.s # x.s \/ ~Finite(f) THEN FALSE
             ELSE PIsFin(r.said[k]) /\ FLe(FAbs(FSub(r.said[k], FSum(TLCEval([q \in 1..Len(f.d) |-> FSub(f.d[q], x.d[q])])))),
                                           FMul(FPow(1, -1), FMax(FOne, MaxAbs(x))))
       IN  FirstOk(<<If(\A k \in 1..3 : One(k), "the printed error is not that of the model"),
                     If(\A k \in 1..3 : \A q \in 1..(k - 1) : r.models[k].x # r.models[q].x, "two of the models have the same data")>>)
RunOk(r, before) ==
  IF Has(r, "err") THEN "the script failed: " \o r.err
  ELSE IF r.kind = "multi" THEN Multi(r)
  ELSE IF Len(r.models) # 1 THEN "not exactly one model was built and trained"
  ELSE IF r.models[1].cls # Class(r.m) THEN "another method was used"
  ELSE IF r.models[1].ranks # RanksOf(r.m, r.d) THEN "the decomposition rank is not the given one"
  ELSE IF Data(r) # "ok" THEN Data(r)
  ELSE IF r.kind = "demo" THEN If(r.models[1].done, "the demo ended without a finished model")
  ELSE File(r, before)
\* over runs with the same arguments the data reach the generation rank
Reached(c) ==
  LET K == { k \in 1..Len(c.runs) : Noiseless(c.runs[k]) /\ ~Has(c.runs[k], "err") }
      Same(k, q) == c.runs[k].m = c.runs[q].m /\ c.runs[k].n = c.runs[q].n /\ c.runs[k].g = c.runs[q].g
  IN  \A k \in K : Cardinality({ q \in K : Same(k, q) }) < 4
                   \/ \A m \in 1..3 : \E q \in K : Same(k, q) /\ RankOf(c.runs[q].models[1].x, m) = Full(c.runs[k], m)
Verdict(c) ==
  IF Has(c, "err") THEN "the history failed: " \o c.err
  ELSE LET v == FirstOk([k \in 1..Len(c.runs) |-> RunOk(c.runs[k], IF k = 1 THEN <<>> ELSE c.runs[k - 1].files)])
       IN  IF v # "ok" THEN v
           ELSE If(Reached(c), "the data never reach the generation rank")
Judge == Report(Cases[pos], Verdict(Cases[pos]))
=============================================================================
