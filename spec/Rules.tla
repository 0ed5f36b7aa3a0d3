-------------------------------- MODULE Rules --------------------------------
(* Rules and what they match.                                                *)
EXTENDS LineProto, Regex

SetOf(q) == {q[i] : i \in 1..Len(q)}

(* Does a rule match a well-formed line (as it is presented to the rule)?    *)
Matches(rule, line) ==
  LET content == TrimNL(line)
      p == ParseTags(content)
  IN CASE rule.type = "basic" -> p.m = rule.match
       [] rule.type = "tags" -> SetOf(rule.tags) \subseteq SetOf(p.tags)
       [] rule.type = "regex" -> Finds(rule.re, Unescape(content))
       [] rule.type = "negregex" -> ~Finds(rule.re, Unescape(content))

RECURSIVE FirstMatch(_, _, _)
FirstMatch(rules, line, i) ==
  IF i > Len(rules) THEN 0 ELSE IF Matches(rules[i], line) THEN i ELSE FirstMatch(rules, line, i + 1)
(* The first rule that matches a line, 0 if none does or it is malformed.    *)
Lookup(rules, line) == IF WellFormed(line) THEN FirstMatch(rules, line, 1) ELSE 0

(* What the filter does with a line: the rule it goes to (0: the junkyard) or *)
(* -1 if it is malformed.  Rules see the line with its tags sorted.          *)
Route(rules, line) == IF WellFormed(line) THEN FirstMatch(rules, Canon(line), 1) ELSE -1

-----------------------------------------------------------------------------
(* The time window.  The filter takes long lines' nanosecond timestamps into *)
(* account; any other line counts as current.                                *)
LineTime(line) ==
  IF Len(line) <= 24 THEN [found |-> FALSE] ELSE ExtractNanos(line)
(* Relative to every moment in t0..t1: "in", "out" or, if it depends, "may". *)
Window(line, delta, t0, t1) ==
  LET t == LineTime(line) IN
  IF ~t.found THEN (IF Lt("0", delta) THEN "in" ELSE "out")
  ELSE IF Le(t.ts, Sub(t0, delta)) \/ Le(Add(t1, delta), t.ts) THEN "out"
  ELSE IF Lt(Sub(t1, delta), t.ts) /\ Lt(t.ts, Add(t0, delta)) THEN "in"
  ELSE "may"
=============================================================================
