-------------------------------- MODULE Text --------------------------------
(* Operators on TLC's native strings.  A character is a string of length 1.  *)
(* All data exchanged with the implementation is printable ASCII plus        *)
(* newline, tab and a few control characters (see CharTable).                *)
EXTENDS Naturals, Integers, Sequences

Chr(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
UpTo(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, i)
LastChr(s) == Chr(s, Len(s))
EndsWith(s, t) == Len(s) >= Len(t) /\ From(s, Len(s) - Len(t) + 1) = t
StartsWith(s, t) == Len(s) >= Len(t) /\ UpTo(s, Len(t)) = t

(* ASCII order for byte comparison.  *)
CharTable == "\t\n\f\r !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharOrd == [c \in {Chr(CharTable, i) : i \in 1..Len(CharTable)} |->
              CHOOSE i \in 1..Len(CharTable) : Chr(CharTable, i) = c]
Digits == {"0","1","2","3","4","5","6","7","8","9"}
DigitVal == [c \in Digits |-> CharOrd[c] - CharOrd["0"]]
DigitChr == [n \in 0..9 |-> CHOOSE c \in Digits : DigitVal[c] = n]

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE IF i > Len(a) THEN -1
  ELSE IF i > Len(b) THEN 1
  ELSE IF Chr(a, i) = Chr(b, i) THEN CmpFrom(a, b, i + 1)
  ELSE IF CharOrd[Chr(a, i)] < CharOrd[Chr(b, i)] THEN -1 ELSE 1
(* Byte-wise comparison: -1, 0 or 1.  *)
CmpStr(a, b) == CmpFrom(a, b, 1)

RECURSIVE IndexIn(_, _, _)
(* The first position >= i of s holding a character of cs, 0 if none.  *)
IndexIn(s, cs, i) ==
  IF i > Len(s) THEN 0 ELSE IF Chr(s, i) \in cs THEN i ELSE IndexIn(s, cs, i + 1)

RECURSIVE LastIndexIn(_, _, _)
(* The last position <= i of s holding a character of cs, 0 if none.  *)
LastIndexIn(s, cs, i) ==
  IF i < 1 THEN 0 ELSE IF Chr(s, i) \in cs THEN i ELSE LastIndexIn(s, cs, i - 1)

RECURSIVE SplitAfterNL(_, _)
SplitAfterNL(s, acc) ==
  IF s = "" THEN acc
  ELSE LET i == IndexIn(s, {"\n"}, 1) IN
       IF i = 0 THEN Append(acc, s)
       ELSE SplitAfterNL(From(s, i + 1), Append(acc, UpTo(s, i)))
(* Lines of s, each including its terminator; never an empty line.  *)
Lines(s) == SplitAfterNL(s, <<>>)

RECURSIVE ConcatFrom(_, _, _)
ConcatFrom(q, i, acc) == IF i > Len(q) THEN acc ELSE ConcatFrom(q, i + 1, acc \o q[i])
Concat(q) == ConcatFrom(q, 1, "")

RECURSIVE JoinFrom(_, _, _, _)
JoinFrom(q, sep, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE JoinFrom(q, sep, i + 1, IF i = 1 THEN q[1] ELSE acc \o sep \o q[i])
Join(q, sep) == JoinFrom(q, sep, 1, "")

TrimNL(s) == IF EndsWith(s, "\n") THEN UpTo(s, Len(s) - 1) ELSE s
NLOf(s) == IF EndsWith(s, "\n") THEN "\n" ELSE ""
EnsureNL(s) == IF s = "" \/ EndsWith(s, "\n") THEN s ELSE s \o "\n"
=============================================================================
