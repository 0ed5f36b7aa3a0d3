-------------------------------- MODULE Regex --------------------------------
(* Regular expressions given as syntax trees, for rules.  Ends(r, s, i) is   *)
(* the set of positions where a match of r starting at position i can end.   *)
EXTENDS Text, FiniteSets
RECURSIVE Ends(_, _, _), EndsSeq(_, _, _), Closure(_, _, _)
EndsSeq(rs, s, is) ==
  IF rs = <<>> THEN is
  ELSE EndsSeq(Tail(rs), s, UNION {Ends(Head(rs), s, i) : i \in is})
Closure(r, s, is) ==
  LET more == is \cup UNION {Ends(r, s, i) : i \in is}
  IN  IF more = is THEN is ELSE Closure(r, s, more)
Ends(r, s, i) ==
  CASE r.op = "lit" -> IF i <= Len(s) /\ Chr(s, i) = r.c THEN {i + 1} ELSE {}
    [] r.op = "any" -> IF i <= Len(s) /\ Chr(s, i) # "\n" THEN {i + 1} ELSE {}
    [] r.op = "cls" -> IF i <= Len(s) /\ ((\E k \in 1..Len(r.cs) : r.cs[k] = Chr(s, i)) # r.neg)
                       THEN {i + 1} ELSE {}
    [] r.op = "seq" -> EndsSeq(r.args, s, {i})
    [] r.op = "alt" -> UNION {Ends(r.args[k], s, i) : k \in 1..Len(r.args)}
    [] r.op = "opt" -> {i} \cup Ends(r.args[1], s, i)
    [] r.op = "star" -> Closure(r.args[1], s, {i})
    [] r.op = "plus" -> Closure(r.args[1], s, Ends(r.args[1], s, i))
    [] r.op = "bol" -> IF i = 1 THEN {i} ELSE {}
    [] r.op = "eol" -> IF i = Len(s) + 1 THEN {i} ELSE {}
Finds(r, s) == \E i \in 1..(Len(s) + 1) : Ends(r, s, i) # {}
=============================================================================
