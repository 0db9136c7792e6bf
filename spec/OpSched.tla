------------------------------- MODULE OpSched -------------------------------
(***************************************************************************)
(* Why the criterion of OpGraph decides C23: the runtime may run any node  *)
(* whose inputs and control inputs are done.  For every graph of up to     *)
(* Size nodes over two variables, TLC runs every schedule; if OpGraph      *)
(* finds no race, all of them give the values and final contents of the    *)
(* schedule in node order.                                                 *)
(***************************************************************************)
EXTENDS OpGraph
CONSTANTS Size, Criterion
Node(t, ins, ctl) == [t |-> t, ins |-> ins, ctl |-> ctl, get |-> FALSE]
In(n, r) == [n |-> n, ref |-> r]
\* nodes 1, 2: variables; 3, 4: their read buffers; then operations
Base == << Node("VariableV2", <<>>, <<>>), Node("VariableV2", <<>>, <<>>),
           Node("Identity", <<In(1, FALSE)>>, <<>>), Node("Identity", <<In(2, FALSE)>>, <<>>) >>
\* an op at place p: computes from one earlier node (buffers included), or assigns an earlier value to a variable
Options(p) ==
  LET src == {3, 4} \cup 5..(p - 1)
      ctls == { <<>> } \cup { <<q>> : q \in 5..(p - 1) }
  IN  { Node("Add", <<In(x, FALSE)>>, c) : x \in src, c \in ctls }
      \cup { Node("Assign", <<In(w, TRUE), In(x, FALSE)>>, c) : w \in {1, 2}, x \in src, c \in ctls }
RECURSIVE Graphs(_)
Graphs(p) == IF p = 4 THEN {Base} ELSE { Append(g, x) : g \in Graphs(p - 1), x \in Options(p) }
VARIABLES g, done, mem, out
vars == <<g, done, mem, out>>
N == Len(g)
\* value of the first value input when node i runs: a buffer's current content, or the computed value
ValOf(i, mm, oo) ==
  LET x == g[i].ins[Len(g[i].ins)].n b == Bufs(g)[x] IN
  IF b # {} THEN mm[CHOOSE w \in b : TRUE] ELSE oo[x]
Eff(i, mm, oo) ==
  IF g[i].t = "Add" THEN [mem |-> mm, out |-> [oo EXCEPT ![i] = <<i, ValOf(i, mm, oo)>>]]
  ELSE IF g[i].t = "Assign" THEN LET v == ValOf(i, mm, oo) IN
       [mem |-> [mm EXCEPT ![g[i].ins[1].n] = v], out |-> [oo EXCEPT ![i] = <<"w">>]]
  ELSE [mem |-> mm, out |-> [oo EXCEPT ![i] = <<"b">>]]
Mem0 == <<"v1", "v2">>
Out0 == [i \in 1..N |-> <<>>]
RECURSIVE Serial(_, _, _)
Serial(i, mm, oo) == IF i > N THEN [mem |-> mm, out |-> oo] ELSE LET e == Eff(i, mm, oo) IN Serial(i + 1, e.mem, e.out)
Init == /\ g \in Graphs(4 + Size)
        /\ done = {1, 2, 3, 4} /\ mem = Mem0
        /\ out = [i \in 1..Len(g) |-> IF i <= 4 THEN <<"b">> ELSE <<>>]
Race == IF Criterion = "none" THEN FALSE
        ELSE IF Criterion = "writes" THEN { p \in RacePairs(g) : IsWrite(g[p[1]]) /\ IsWrite(g[p[2]]) } # {}
        ELSE RacePairs(g) # {}
Next == /\ ~Race
        /\ \E i \in (1..N) \ done : Preds(g, i) \subseteq done
              /\ done' = done \cup {i}
              /\ LET e == Eff(i, mem, out) IN mem' = e.mem /\ out' = e.out
        /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
\* race-free graphs: every schedule ends as the serial one
Confluent == (done = 1..N /\ ~Race) => LET s == Serial(5, Mem0, [i \in 1..N |-> IF i <= 4 THEN <<"b">> ELSE <<>>]) IN mem = s.mem /\ out = s.out
=============================================================================
