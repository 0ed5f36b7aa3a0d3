------------------------------- MODULE SplitMC -------------------------------
(* Splitter as a state machine: every buffer of length <= MaxLen with any    *)
(* placement of newlines, every limit.                                       *)
EXTENDS Split
CONSTANT MaxLen
VARIABLES len, ends, max, pos, pieces
vars == <<len, ends, max, pos, pieces>>
Init == /\ len \in 0..MaxLen /\ ends \in SUBSET (1..MaxLen) /\ max \in 1..(MaxLen + 1)
        /\ \A e \in ends : e <= len
        /\ pos = 0 /\ pieces = <<>>
Next == /\ pos < len
        /\ LET n == PieceLen(len, ends, max, pos)
           IN pos' = pos + n /\ pieces' = Append(pieces, n)
        /\ UNCHANGED <<len, ends, max>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NeverTooLong == \A i \in 1..Len(pieces) : pieces[i] >= 1 /\ pieces[i] <= max
Correct == pos = len => PiecesOK(len, ends, max, pieces) /\ pieces = Pieces(len, ends, max)
Terminates == <>(pos = len)
=============================================================================
