------------------------------- MODULE LineMC --------------------------------
(* The line protocol operators on every string over Alphabet of at most      *)
(* MaxLen characters: strings grow one character per step.                   *)
EXTENDS LineProto, TLC, Json, IOUtils
CONSTANTS Alphabet, MaxLen, Emit
VARIABLE s
ParseAlphabet == {"a", "b", ",", "=", " ", "\\", "\""}
StampAlphabet == {"1", "0", "-", " ", "a", "\n"}
Init == s = ""
Grow(c) == Len(s) < MaxLen /\ s' = s \o c
Next == \E c \in Alphabet : Grow(c)
Spec == Init /\ [][Next]_s

HasBackslash(x) == IndexIn(x, {"\\"}, 1) # 0
(* Escaping and parsing are inverse for names without backslash.             *)
RoundTripTag == ~HasBackslash(s) /\ s # "" =>
  LET line == "m," \o EscapeTag(s) \o "=" \o EscapeTag(s) \o " f=1 1"
      p == ParseTags(line)
  IN  p.ok /\ p.m = "m" /\ p.tags = <<<<s, s>>>> /\ p.rest = "f=1 1"
RoundTripMeasurement == ~HasBackslash(s) =>
  LET p == ParseTags(EscapeMeasurement(s) \o " f=1 1")
  IN  p.ok /\ p.m = s /\ p.tags = <<>> /\ p.rest = "f=1 1"
RoundTripQuoted ==
  LET q == QuotedString("\"" \o s) IN
  q.ok => LET q2 == QuotedString(Quote(q.val) \o q.rest)
          IN q2.ok /\ q2.val = q.val /\ q2.rest = q.rest
(* A token and its remainder make up the string.                             *)
TokenSplits == LET t == TokenRaw(s, {",", " "}) IN t.tok \o t.rest = s
UnescapeShrinks == Len(Unescape(s)) <= Len(s) /\ (~HasBackslash(s) => Unescape(s) = s)
(* Sorting does not change a line's meaning, and is idempotent.              *)
CanonSame ==
  LET p == ParseTags(TrimNL(s)) IN
  p.ok => /\ IsCanonOf(Canon(s), s)
          /\ ~HasBackslash(s) =>
               LET q == ParseTags(TrimNL(Canon(s))) IN
               /\ q.ok /\ q.m = p.m /\ Sorted(q.tags) /\ TagBag(q.tags) = TagBag(p.tags) /\ q.rest = p.rest
               /\ Canon(Canon(s)) = Canon(s)
EmitCase == Emit => PrintT(<<"CASE", ToJson(s)>>)
=============================================================================
