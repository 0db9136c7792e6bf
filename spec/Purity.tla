------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* Calls and the objects their caller holds (C38).  The caller holds       *)
(* references to cells: the arguments it made and the results it was       *)
(* given.  A call computes a function of the values of its arguments and   *)
(* hands out one new object; it alters nothing else.  The caller itself    *)
(* may write its arguments.  Broken names a deviation TLC must refute:     *)
(*   inplace  the call works in its argument                               *)
(*   alias    the result is the argument's own cell                        *)
(*   memo     results are remembered per object, not per value             *)
(*   grow     something accumulates from call to call                      *)
(*   disturb  the call leaves a trace in global state                      *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Funs, Args, Values, Depth, Broken
VARIABLES heap, refs, glob, calls, log
vars == <<heap, refs, glob, calls, log>>
\* what a call may do to the objects held before (was) and after (now) it
CallKeeps(was, now) == Len(now) >= Len(was) /\ \A o \in 1..Len(was) : now[o] = was[o]
WriteKeeps(was, now, own) == Len(now) = Len(was) /\ \A o \in 1..Len(was) : o \in own \/ now[o] = was[o]

F(f, v) == (2 * v + f) % 5
Held == [o \in 1..Len(refs) |-> heap[refs[o]]]
Init == /\ heap = [a \in Args |-> 0]
        /\ refs = [a \in Args |-> a]
        /\ glob = 0 /\ calls = 0 /\ log = <<>>
Earlier(f, a) == { i \in 1..Len(log) : log[i].op = "call" /\ log[i].f = f /\ log[i].a = a }
Result(f, a) ==
  LET v == heap[refs[a]] IN
  IF Broken = "memo" /\ Earlier(f, a) # {} THEN log[CHOOSE i \in Earlier(f, a) : TRUE].out
  ELSE IF Broken = "grow" THEN F(f, v) + calls
  ELSE F(f, v)
Call(f, a) ==
  /\ LET r == Result(f, a) IN
       /\ IF Broken = "alias" /\ r = heap[refs[a]]
          THEN heap' = heap /\ refs' = Append(refs, refs[a])
          ELSE /\ heap' = Append(IF Broken = "inplace" /\ f = 2 THEN [heap EXCEPT ![refs[a]] = r] ELSE heap, r)
               /\ refs' = Append(refs, Len(heap) + 1)
       /\ log' = Append(log, [op |-> "call", f |-> f, a |-> a, in |-> heap[refs[a]], out |-> r, at |-> Len(refs) + 1])
  /\ glob' = IF Broken = "disturb" THEN glob + 1 ELSE glob
  /\ calls' = calls + 1
Write(a, v) ==
  /\ v # heap[refs[a]]
  /\ heap' = [heap EXCEPT ![refs[a]] = v]
  /\ log' = Append(log, [op |-> "write", f |-> 0, a |-> a, in |-> v, out |-> 0, at |-> 0])
  /\ UNCHANGED <<refs, glob, calls>>
Next == Len(log) < Depth /\ \/ \E f \in Funs, a \in Args : Call(f, a)
                            \/ \E a \in Args, v \in Values : Write(a, v)
Spec == Init /\ [][Next]_vars
\* calls leave what is held alone, and so does the caller's writing of other objects
Untouched == [][ /\ (Len(refs') > Len(refs) => CallKeeps(Held, Held'))
                 /\ (Len(refs') = Len(refs) => \E a \in Args : WriteKeeps(Held, Held', {a})) ]_vars
\* equal arguments, equal results, whatever happened between
Functional == \A i, j \in 1..Len(log) : (log[i].op = "call" /\ log[j].op = "call" /\ log[i].f = log[j].f /\ log[i].in = log[j].in)
                                        => log[i].out = log[j].out
Kept == \A i \in 1..Len(log) : log[i].op = "call" => Held[log[i].at] = log[i].out
Calm == glob = 0
=============================================================================
