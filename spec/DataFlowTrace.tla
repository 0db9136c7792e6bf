---------------------------- MODULE DataFlowTrace ----------------------------
(***************************************************************************)
(* Follows recorded histories of providers, environments and models with   *)
(* the actions of DataFlow (C33) and judges what each answer and each      *)
(* training showed against the data the specification says are in force.   *)
(***************************************************************************)
EXTENDS DataFlow, Measures, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, i, digest, v
tvars == <<prov, now, kept, built, shows, said, log, c, i, digest, v>>
Has(r, f) == f \in DOMAIN r
Case == Cases[c]
RECURSIVE FirstOk(_, _)
FirstOk(q, n) == IF n > Len(q) THEN "ok" ELSE IF q[n] # "ok" THEN q[n] ELSE FirstOk(q, n + 1)
If(b, x) == IF b THEN "ok" ELSE x
DataOf(r, m, ver) == r.data[r.prov[m]][ver]
Full(r, m, ver) == r.kinds[m] \in {"hosvd", "hooi"} /\ r.ranks[m][ver] = DataOf(r, m, ver).s
ContractOk(k) ==
  /\ \A f \in {"full_tensor", "batch_size", "data_queue", "full_data", "full_shape"} : k[f] = "NotImplementedError"
  /\ k.graphs
TrainVerdict(r, e) ==
  LET X == DataOf(r, e.m, built[e.m]) IN
  IF Has(e, "err") \/ ~Has(e, "full") \/ ~Has(e, "hist") THEN "training raised an error or left no result"
  ELSE IF e.full.s # X.s THEN "the result does not have the shape of the data the model was built on"
  ELSE IF ~Finite(e.full) THEN "ok"
  ELSE IF Full(r, e.m, built[e.m]) /\ ~WithinT(e.full, X, FMul(E6(20), FAdd(E6(1000), Norm(X))))
       THEN "full ranks do not reproduce the data the model was built on"
  ELSE IF r.kinds[e.m] = "hosvd"
       THEN If(FLe(Norm(SubT(e.full, X)), FMul(FAdd(FOne, E6(20)), Norm(X))), "the result is farther from the data than zero")
  ELSE IF Len(e.hist) = 0 THEN "training returned no history"
  ELSE StateHist(e.hist[Len(e.hist)], X, e.full)
AskVerdict(r, e) ==
  LET X == DataOf(r, e.m, now[r.prov[e.m]]) IN
  IF Has(e, "err") \/ ~({"data", "shape", "rest"} \subseteq DOMAIN e) THEN "asking the environment raised an error"
  ELSE FirstOk(<<If(e.data = X, "the environment does not answer with the data of its provider"),
                 If(e.shape = X.s, "the environment does not answer with the shape of its data"),
                 If(e.rest, "queue or summary path are not those given")>>, 1)
OthersKeep(r, e) == If(\A m \in Models : (e.op = "train" /\ m = e.m) \/ e.held[m] = digest[m] \/ (e.op = "build" /\ m = e.m /\ e.held[m] = -1),
                   "a result changed although its model was not trained")
Verdict(r, e) ==
  FirstOk(<<IF e.op = "train" THEN TrainVerdict(r, e)
            ELSE IF e.op = "ask" THEN AskVerdict(r, e)
            ELSE If(~Has(e, "err"), "building raised an error"),
            IF Has(e, "held") THEN OthersKeep(r, e) ELSE "what the models hold could not be read",
            If(~Has(e, "clean") \/ e.clean, "the data of the provider were modified")>>, 1)
TInit == /\ c \in 1..Len(Cases) /\ i = 0 /\ digest = <<-1, -1>>
         /\ Init /\ prov = Cases[c].prov
         /\ v = IF Has(Cases[c], "err") THEN "the run ended without a result"
                ELSE If(ContractOk(Cases[c].contract), "a bare provider or environment does not keep its contract")
TNext == /\ v = "ok" /\ i < Len(Case.ev) /\ i' = i + 1 /\ c' = c
         /\ LET e == Case.ev[i + 1] IN
            /\ CASE e.op = "set" -> Set(e.m, e.x)
                 [] e.op = "ask" -> Ask(e.m)
                 [] e.op = "build" -> Build(e.m)
                 [] e.op = "train" -> Train(e.m)
            /\ v' = Verdict(Case, e)
            /\ digest' = IF Has(e, "held") THEN e.held ELSE digest
TSpec == TInit /\ [][TNext]_tvars
TJudge == IF v # "ok" THEN PrintT(<<"FAIL", Case.id, v>>)
          ELSE (i = Len(Case.ev) => PrintT(<<"DONE", Case.id, i>>))
=============================================================================
