------------------------------- MODULE CsvText -------------------------------
(***************************************************************************)
(* The coordinate files TensorReader reads (C11): lines                     *)
(*   index,...,index,value                                                  *)
(* in any order, blank lines between them.  A text is a sequence of one-   *)
(* character strings.  This module says which entries a text lists and     *)
(* which tensor these entries denote.                                       *)
(***************************************************************************)
EXTENDS FxAlg
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(ch) == \E k \in 1..10 : Digits[k] = ch
DigitVal(ch) == (CHOOSE k \in 1..10 : Digits[k] = ch) - 1

\* cutting a sequence at every occurrence of a character
RECURSIVE CutFrom(_, _, _, _)
CutFrom(t, sep, from, i) ==
  IF i > Len(t) THEN <<SubSeq(t, from, Len(t))>>
  ELSE IF t[i] = sep THEN <<SubSeq(t, from, i - 1)>> \o CutFrom(t, sep, i + 1, i + 1)
  ELSE CutFrom(t, sep, from, i + 1)
Cut(t, sep) == CutFrom(t, sep, 1, 1)
NoCR(t) == SelectSeq(t, LAMBDA ch : ch # "\r")
NoSpace(t) == SelectSeq(t, LAMBDA ch : ch # " ")

RECURSIVE NatOf(_, _)
NatOf(t, acc) == IF Len(t) = 0 THEN acc ELSE NatOf(Tail(t), 10 * acc + DigitVal(Head(t)))
RECURSIVE BigOf(_, _)
BigOf(t, acc) == IF Len(t) = 0 THEN acc ELSE BigOf(Tail(t), FAdd(FMul(acc, FInt(10)), FInt(DigitVal(Head(t)))))
RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN FOne ELSE FMul(FInt(10), Ten(k - 1))
PosOf(t, S) == IF \E i \in 1..Len(t) : t[i] \in S THEN CHOOSE i \in 1..Len(t) : t[i] \in S /\ \A j \in 1..i-1 : t[j] \notin S ELSE 0
SignOf(t) == IF Len(t) > 0 /\ t[1] = "-" THEN -1 ELSE 1
Unsigned(t) == IF Len(t) > 0 /\ t[1] \in {"-", "+"} THEN Tail(t) ELSE t
IntOf(t) == SignOf(t) * NatOf(Unsigned(t), 0)
\* [sign] digits [. digits] [e [sign] digits]
NumberOf(t) ==
  LET u == Unsigned(t)
      e == PosOf(u, {"e", "E"})
      m == IF e = 0 THEN u ELSE SubSeq(u, 1, e - 1)
      x == IF e = 0 THEN 0 ELSE IntOf(SubSeq(u, e + 1, Len(u)))
      p == PosOf(m, {"."})
      whole == IF p = 0 THEN m ELSE SubSeq(m, 1, p - 1)
      frac == IF p = 0 THEN <<>> ELSE SubSeq(m, p + 1, Len(m))
      n == BigOf(whole \o frac, FZero)
      k == x - Len(frac)
      a == IF k >= 0 THEN FMul(n, Ten(k)) ELSE FDiv(n, Ten(-k))
  IN  IF SignOf(t) = -1 THEN FNeg(a) ELSE a

\* sign, significant digits and exponent of a number; different ones are different numbers
RECURSIVE NoLead(_)
NoLead(t) == IF Len(t) > 0 /\ Head(t) = "0" THEN NoLead(Tail(t)) ELSE t
RECURSIVE NoTrail(_)
NoTrail(t) == IF Len(t) > 0 /\ t[Len(t)] = "0" THEN NoTrail(SubSeq(t, 1, Len(t) - 1)) ELSE t
Canon(t) ==
  LET u == Unsigned(t)
      e == PosOf(u, {"e", "E"})
      m == IF e = 0 THEN u ELSE SubSeq(u, 1, e - 1)
      x == IF e = 0 THEN 0 ELSE IntOf(SubSeq(u, e + 1, Len(u)))
      p == PosOf(m, {"."})
      frac == IF p = 0 THEN <<>> ELSE SubSeq(m, p + 1, Len(m))
      all == NoLead((IF p = 0 THEN m ELSE SubSeq(m, 1, p - 1)) \o frac)
      d == NoTrail(all)
  IN IF d = <<>> THEN [sign |-> 0, d |-> <<>>, x |-> 0]
     ELSE [sign |-> SignOf(t), d |-> d, x |-> x - Len(frac) + Len(all) - Len(d)]

\* the entries of a text, in file order: <<[ix, v], ...>>
EntryOf(line) ==
  LET f == Cut(line, ",")
      n == Len(f) - 1
  IN  [ix |-> [k \in 1..n |-> IntOf(NoSpace(f[k]))], v |-> NumberOf(NoSpace(f[n + 1])), t |-> Canon(NoSpace(f[n + 1]))]
LinesOf(text) == LET l == Cut(NoCR(text), "\n") IN SelectSeq(l, LAMBDA x : Len(x) > 0)
EntriesOf(text) == LET l == LinesOf(text) IN TLCEval([k \in 1..Len(l) |-> EntryOf(l[k])])

\* shape the entries imply, and the tensor of a given shape holding them
NaturalShape(es) == [k \in 1..Len(es[1].ix) |-> 1 + (CHOOSE m \in { es[j].ix[k] : j \in 1..Len(es) } : \A j \in 1..Len(es) : es[j].ix[k] <= m)]
DenseOf(es, s) ==
  Tab(s, LAMBDA ix : IF \E j \in 1..Len(es) : es[j].ix = ix THEN es[CHOOSE j \in 1..Len(es) : es[j].ix = ix].v ELSE FZero)
Distinct(es) == \A j, k \in 1..Len(es) : j # k => es[j].ix # es[k].ix
=============================================================================
