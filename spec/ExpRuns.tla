------------------------------- MODULE ExpRuns -------------------------------
(***************************************************************************)
(* Histories of experiment runs over a directory of result files.  Broken  *)
(* names a deviation that TLC must refute: appending to the file, or a     *)
(* name without the run number.                                            *)
(***************************************************************************)
EXTENDS ExpFiles, FiniteSets
CONSTANTS Methods, Sizes, Ranks, Times, Hists, Depth, Broken
VARIABLES files, log
vars == <<files, log>>
Runs == [m : Methods, n : { <<a, b, c>> : a \in Sizes, b \in Sizes, c \in {2} }, g : Ranks, d : Ranks, t : Times]
Empty == [x \in {} |-> <<>>]
\* histories are told apart by a number; a file holds a sequence of steps <<history, step>>
Steps(h) == [k \in 1..h[2] |-> <<h[1], k>>]
Written(fs, r, h) ==
  IF Broken = "append" THEN After(fs, r, (IF Name(r) \in DOMAIN fs THEN fs[Name(r)] ELSE <<>>) \o Steps(h))
  ELSE IF Broken = "short-name" THEN After(fs, [r EXCEPT !.t = 0], Steps(h))
  ELSE IF Broken = "last-only" THEN After(fs, r, <<Steps(h)[h[2]]>>)
  ELSE After(fs, r, Steps(h))
Init == files = Empty /\ log = <<>>
Run(r, h) == /\ files' = Written(files, r, h)
             /\ log' = Append(log, [r |-> r, h |-> h])
Next == Len(log) < Depth /\ \E r \in Runs : \E h \in { <<Len(log) + 1, k>> : k \in Hists } : Run(r, h)
Spec == Init /\ [][Next]_vars
\* the last run under a name
LastOf(x) == LET S == { i \in 1..Len(log) : Name(log[i].r) = x } IN CHOOSE i \in S : \A j \in S : j <= i
\* every announced result is there, complete and from its last run; there is no other file
Faithful == /\ DOMAIN files = { Name(log[i].r) : i \in 1..Len(log) }
            /\ \A x \in DOMAIN files : files[x] = Steps(log[LastOf(x)].h)
\* a run changes one file at most
Local == [][ \E r \in Runs : \A x \in DOMAIN files : x = Name(r) \/ files'[x] = files[x] ]_vars
=============================================================================
