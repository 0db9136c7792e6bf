---------------------------- MODULE ReaderTrace ----------------------------
(***************************************************************************)
(* Follows a recorded history of files written, readers opened and reads   *)
(* done (C11).  The state is the text of every file and the entries and    *)
(* shape every reader must hold; after every event the code's readers are  *)
(* compared with it.                                                       *)
(***************************************************************************)
EXTENDS CsvText, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, i, text, held, v
vars == <<c, i, text, held, v>>
Has(r, f) == f \in DOMAIN r
Case == Cases[c]
Tol == FPow(10, -4)                     \* 1e-15: a value is a double
Close(a, b) == PIsFin(a) /\ LET m == FMax(FOne, FAbs(b)) IN FLe(FAbs(FSub(a, b)), FMul(Tol, m))
\* what a read must give: [ok, es, s]
Nothing == [ok |-> FALSE, es |-> <<>>, s |-> <<>>]
Outcome(e) == LET es == EntriesOf(text[Case.of[e.r]]) IN
              [ok |-> TRUE, es |-> es, s |-> IF e.full = <<>> THEN NaturalShape(es) ELSE e.full]
Supported(e) == Case.ext[Case.of[e.r]] \in {"csv", "txt"}
SeenOk(o, h) ==
  IF ~h.ok THEN IF o.none THEN "ok" ELSE "a reader holds data it never read"
  ELSE IF o.none THEN "a reader holds nothing after a read"
  ELSE IF o.D.s # h.s THEN "the dense tensor has another shape"
  ELSE LET E == DenseOf(h.es, h.s) IN
       IF \E n \in 1..Len(E.d) : ~Close(o.D.d[n], E.d[n]) THEN "the dense tensor differs from what the file lists"
       ELSE IF o.shape # h.s THEN "the sparse tensor has another shape"
       ELSE IF Len(o.idx) # Len(h.es) \/ Len(o.val) # Len(h.es) THEN "the sparse tensor has another number of entries"
       ELSE IF \E n \in 1..Len(h.es) : o.idx[n] # h.es[n].ix \/ ~Close(o.val[n], h.es[n].v) THEN "the sparse tensor differs from the entries in file order"
       \* a number of at most 15 digits is the shortest text of the double nearest to it
       ELSE IF \E n \in 1..Len(h.es) : Len(h.es[n].t.d) <= 15 /\ (Canon(o.text[n]) # h.es[n].t \/ Canon(o.cell[n]) # h.es[n].t)
            THEN "a value is not the number the file lists"
       ELSE "ok"
RECURSIVE FirstBad(_, _, _)
FirstBad(seen, h, k) == IF k > Len(seen) THEN "ok"
                        ELSE LET a == SeenOk(seen[k], h[seen[k].r]) IN IF a = "ok" THEN FirstBad(seen, h, k + 1) ELSE a
Init == /\ c \in 1..Len(Cases) /\ i = 0
        /\ text = [f \in 1..Len(Cases[c].ext) |-> <<>>]
        /\ held = [r \in 1..Len(Cases[c].of) |-> Nothing]
        /\ v = IF Has(Cases[c], "err") THEN "the run ended without a result" ELSE "ok"
Next ==
  /\ v = "ok" /\ i < Len(Case.ev)
  /\ i' = i + 1 /\ c' = c
  /\ LET e == Case.ev[i + 1] IN
     /\ text' = IF e.op = "write" THEN [text EXCEPT ![e.f] = e.text] ELSE text
     /\ held' = IF e.op = "read" /\ Supported(e) THEN [held EXCEPT ![e.r] = Outcome(e)] ELSE held
     /\ v' = IF e.op = "read" /\ Supported(e) /\ Has(e, "err") THEN "reading a supported file raised " \o e.err
             ELSE IF e.op = "read" /\ ~Supported(e) /\ ~Has(e, "err") THEN "an unsupported file type was not refused"
             ELSE IF e.op # "read" /\ Has(e, "err") THEN "making a reader raised " \o e.err
             ELSE FirstBad(e.seen, held', 1)
Judge == IF v = "ok" THEN (i = Len(Case.ev) => PrintT(<<"DONE", Case.id, i>>)) ELSE PrintT(<<"FAIL", Case.id, v>>)
=============================================================================
