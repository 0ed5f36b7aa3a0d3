-------------------------------- MODULE Split --------------------------------
(* Cutting data into pieces of at most `max` bytes between lines.  Data is   *)
(* given by its length and the positions just behind its newlines.           *)
EXTENDS Naturals, Sequences, FiniteSets

(* The length of the piece that starts after the first `pos` bytes.          *)
PieceLen(len, ends, max, pos) ==
  IF len - pos <= max THEN len - pos
  ELSE LET fit == {e \in ends : e > pos /\ e <= pos + max}
       IN  IF fit = {} THEN max
           ELSE (CHOOSE e \in fit : \A f \in fit : f <= e) - pos

RECURSIVE PiecesFrom(_, _, _, _, _)
PiecesFrom(len, ends, max, pos, acc) ==
  IF pos >= len THEN acc
  ELSE LET n == PieceLen(len, ends, max, pos)
       IN  PiecesFrom(len, ends, max, pos + n, Append(acc, n))
Pieces(len, ends, max) == PiecesFrom(len, ends, max, 0, <<>>)

RECURSIVE SumTo(_, _)
SumTo(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumTo(q, n - 1)
RangeOf(q) == {q[i] : i \in 1..Len(q)}

(* What the pieces must satisfy, independently of how they are computed.     *)
PiecesOK(len, ends, max, pieces) ==
  LET cut(i) == SumTo(pieces, i)
      lineStart(p) == LET s == {e \in ends : e <= p} \cup {0} IN CHOOSE e \in s : \A f \in s : f <= e
      lineEnd(p) == LET s == {e \in ends : e > p} \cup {len} IN CHOOSE e \in s : \A f \in s : f >= e
  IN  /\ SumTo(pieces, Len(pieces)) = len
      /\ \A i \in 1..Len(pieces) : pieces[i] >= 1 /\ pieces[i] <= max
      /\ \A i \in 1..(Len(pieces) - 1) :
           /\ cut(i) \notin ends => lineEnd(cut(i)) - lineStart(cut(i)) > max
           /\ \* one more whole line would not fit
              cut(i) \in ends => lineEnd(cut(i)) - cut(i - 1) > max
=============================================================================
