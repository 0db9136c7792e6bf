------------------------------- MODULE OpGraph -------------------------------
(***************************************************************************)
(* What an op graph does to the contents of variables (C23).               *)
(*                                                                         *)
(* A graph is a sequence of nodes in an order compatible with its edges:   *)
(*   [t  |-> op type,                                                      *)
(*    ins |-> << [n |-> producer, ref |-> the op takes a reference] ... >>,*)
(*    ctl |-> << producer, ... >>,   control inputs                        *)
(*    get |-> the run returns an output of this node]                      *)
(* A variable is the node that creates it.  Reference variables hand out   *)
(* their buffer: the output of the variable, of the assignments to it and  *)
(* of ops that only pass a buffer on is that buffer, and its content is    *)
(* read by the op that consumes it, when that op runs.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
RefVars == {"Variable", "VariableV2", "TemporaryVariable"}
ResVars == {"VarHandleOp"}
RefWrites == {"Assign", "AssignAdd", "AssignSub", "ScatterUpdate", "ScatterAdd", "ScatterSub", "ScatterMul", "ScatterDiv",
              "ScatterNdUpdate", "ScatterNdAdd", "ScatterNdSub", "StridedSliceAssign", "CountUpTo", "ScatterMin", "ScatterMax"}
ResWrites == {"AssignVariableOp", "AssignAddVariableOp", "AssignSubVariableOp", "ResourceScatterUpdate", "ResourceScatterAdd", "ResourceStridedSliceAssign"}
\* ops whose output may be the buffer of their first input
Forward == {"Identity", "RefIdentity", "Reshape", "Squeeze", "ExpandDims", "StopGradient", "PreventGradient", "Snapshot",
            "PlaceholderWithDefault", "IdentityN", "Bitcast", "CheckNumerics", "Print", "DebugIdentity", "EnsureShape", "_Retval"}
NoContent == {"Shape", "ShapeN", "Size", "Rank", "NoOp", "IsVariableInitialized", "VarIsInitializedOp", "VariableShape"}
Preds(g, i) == { g[i].ins[k].n : k \in 1..Len(g[i].ins) } \cup { g[i].ctl[k] : k \in 1..Len(g[i].ctl) }

\* the variables whose buffer the output of node i may be
RECURSIVE BufsFrom(_, _, _)
BufsFrom(g, i, acc) ==
  IF i > Len(g) THEN acc
  ELSE LET x == g[i]
           b == IF x.t \in RefVars \cup ResVars THEN {i}
                ELSE IF (x.t \in RefWrites \cup Forward) /\ Len(x.ins) > 0 THEN acc[x.ins[1].n]
                ELSE IF x.t \in {"Switch", "RefSwitch", "Merge", "RefMerge", "Enter", "RefEnter", "Exit", "NextIteration", "Select", "RefSelect"}
                     THEN UNION { acc[x.ins[k].n] : k \in 1..Len(x.ins) }
                ELSE {}
       IN  BufsFrom(g, i + 1, Append(acc, b))
Bufs(g) == BufsFrom(g, 1, <<>>)
IsWrite(x) == x.t \in RefWrites \cup ResWrites
\* variables written and read by node i, given the buffers
Writes(g, b, i) == IF IsWrite(g[i]) /\ Len(g[i].ins) > 0 THEN b[g[i].ins[1].n] ELSE {}
Reads(g, b, i) ==
  LET x == g[i] IN
  IF x.t \in RefVars \cup ResVars \cup Forward \cup NoContent THEN {}
  ELSE UNION { b[x.ins[k].n] : k \in { k \in 1..Len(x.ins) : ~(k = 1 /\ IsWrite(x)) /\ (~x.ins[k].ref \/ ~IsWrite(x)) } }
\* the run returns the content of these variables
Returned(g, b, i) == IF g[i].get /\ g[i].t \notin ResVars THEN b[i] ELSE {}

\* all nodes that come before node i
RECURSIVE UpFrom(_, _, _)
UpFrom(g, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET nx == UNION { Preds(g, i) : i \in todo } \ seen IN UpFrom(g, nx, seen \cup nx)
Before(g, i) == UpFrom(g, {i}, {})

\* a race: two accesses of one variable, at least one a write, not ordered
RacePairs(g) ==
  LET b == TLCEval(Bufs(g))
      wr == TLCEval([i \in 1..Len(g) |-> Writes(g, b, i)])
      rd == TLCEval([i \in 1..Len(g) |-> Reads(g, b, i)])
      W == { i \in 1..Len(g) : wr[i] # {} }
      R == { i \in 1..Len(g) : rd[i] # {} }
      Rt == { i \in 1..Len(g) : Returned(g, b, i) # {} }
      up == TLCEval([i \in W \cup R \cup Rt |-> Before(g, i)])
      WW == { <<i, j>> \in W \X W : i < j /\ wr[i] \cap wr[j] # {} /\ i \notin up[j] /\ j \notin up[i] }
      WR == { <<i, j>> \in W \X R : i # j /\ wr[i] \cap rd[j] # {} /\ i \notin up[j] /\ j \notin up[i] }
      \* a returned buffer is read when the run is over: every write of it must come before it was taken
      WG == { <<i, j>> \in W \X Rt : i # j /\ wr[i] \cap Returned(g, b, j) # {} /\ i \notin up[j] }
  IN  WW \cup WR \cup WG
Ordered(g) == \A i \in 1..Len(g) : \A p \in Preds(g, i) : p < i /\ p >= 1
=============================================================================
