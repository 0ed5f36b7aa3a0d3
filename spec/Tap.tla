--------------------------------- MODULE Tap ---------------------------------
(* The tap: prints the lines of a subject's messages which an expression     *)
(* selects.  Matches(line) is given the line without its newline.            *)
EXTENDS Text
RECURSIVE Picked(_, _, _, _)
Picked(ls, Matches(_), i, acc) ==
  IF i > Len(ls) THEN acc
  ELSE Picked(ls, Matches, i + 1, IF Matches(TrimNL(ls[i])) THEN acc \o ls[i] ELSE acc)
Selected(msg, Matches(_)) == Picked(Lines(msg), Matches, 1, "")
=============================================================================
