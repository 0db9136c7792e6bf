------------------------------ MODULE DataFlow ------------------------------
(***************************************************************************)
(* Where the data of a decomposition come from (C33).  A provider holds a  *)
(* version of its data and may get another one at any time.  Environments  *)
(* answer with what their provider holds when asked; a model is built on   *)
(* what its provider holds then, and its training shows a decomposition of *)
(* exactly those data.                                                     *)
(* Broken variants: "first" an environment keeps the first answer, "class" *)
(* all providers share one slot, "stale" rebuilding keeps the first data,  *)
(* "late" a model takes over what another model was built on last.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Depth, Broken
Providers == {1, 2}
Models == {1, 2}
Versions == {1, 2, 3}
VARIABLES prov,    \* provider of each model
          now,     \* version each provider holds
          kept,    \* per model: first version its environment answered (0 none)
          built,   \* per model: version it was built on (0 not built)
          shows,   \* per model: version its result decomposes (0 none)
          said,    \* what was answered last: <<model, version>> or <<>>
          log
vars == <<prov, now, kept, built, shows, said, log>>

Init == /\ prov \in { f \in [Models -> Providers] : f[1] = 1 }
        /\ now = [p \in Providers |-> 1]
        /\ kept = [m \in Models |-> 0] /\ built = [m \in Models |-> 0] /\ shows = [m \in Models |-> 0]
        /\ said = <<>> /\ log = <<>>
Can == Len(log) < Depth
Say(a, x, y) == log' = Append(log, <<a, x, y>>)
Held(m) == IF Broken = "class" THEN now[2]
           ELSE IF Broken = "first" /\ kept[m] # 0 THEN kept[m] ELSE now[prov[m]]
Set(p, x) == /\ Can /\ now[p] # x /\ (IF log = <<>> THEN TRUE ELSE log[Len(log)][1] # "set" \/ log[Len(log)][2] # p)
             /\ now' = IF Broken = "class" THEN [q \in Providers |-> x] ELSE [now EXCEPT ![p] = x]
             /\ Say("set", p, x) /\ said' = <<>> /\ UNCHANGED <<prov, kept, built, shows>>
Ask(m) == /\ Can
          /\ said' = <<m, Held(m)>>
          /\ kept' = [kept EXCEPT ![m] = IF @ = 0 THEN now[prov[m]] ELSE @]
          /\ Say("ask", m, 0) /\ UNCHANGED <<prov, now, built, shows>>
Build(m) == /\ Can
            /\ built' = [q \in Models |->
                 IF q = m \/ (Broken = "late" /\ built[q] # 0)
                 THEN (IF Broken = "stale" /\ built[m] # 0 THEN built[m] ELSE Held(m)) ELSE built[q]]
            /\ kept' = [kept EXCEPT ![m] = IF @ = 0 THEN now[prov[m]] ELSE @]
            /\ Say("build", m, 0) /\ said' = <<>> /\ UNCHANGED <<prov, now, shows>>
Train(m) == /\ Can /\ built[m] # 0
            /\ shows' = [shows EXCEPT ![m] = built[m]]
            /\ Say("train", m, 0) /\ said' = <<>> /\ UNCHANGED <<prov, now, kept, built>>
Next == \/ \E p \in Providers, x \in Versions : (\E m \in Models : prov[m] = p) /\ Set(p, x)
        \/ \E m \in Models : Ask(m) \/ Build(m) \/ Train(m)
Spec == Init /\ [][Next]_vars

\* --- what the log alone says ------------------------------------------------
RECURSIVE Replay(_, _)
Start == [now |-> [p \in Providers |-> 1], built |-> [m \in Models |-> 0], shows |-> [m \in Models |-> 0], said |-> <<>>]
Replay(i, st) ==
  IF i > Len(log) THEN st
  ELSE LET e == log[i] IN
       CASE e[1] = "set" -> Replay(i + 1, [st EXCEPT !.now[e[2]] = e[3], !.said = <<>>])
         [] e[1] = "ask" -> Replay(i + 1, [st EXCEPT !.said = <<e[2], st.now[prov[e[2]]]>>])
         [] e[1] = "build" -> Replay(i + 1, [st EXCEPT !.built[e[2]] = st.now[prov[e[2]]], !.said = <<>>])
         [] e[1] = "train" -> Replay(i + 1, [st EXCEPT !.shows[e[2]] = st.built[e[2]], !.said = <<>>])
\* environments answer with the present data
AnswersNow == said = Replay(1, Start).said
\* a result decomposes the data its model was built on
OwnData == shows = Replay(1, Start).shows
Untouched == now = Replay(1, Start).now
=============================================================================
