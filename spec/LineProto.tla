----------------------------- MODULE LineProto -----------------------------
(* InfluxDB line protocol as influx-spout understands it:                    *)
(*     measurement[,key=value]* [fields] [timestamp]                         *)
(* Backslash escapes a delimiter that directly follows it.                   *)
EXTENDS Dec

-----------------------------------------------------------------------------
(* Tokens.  A token of s ends before the first character of `until` which is *)
(* not directly preceded by a backslash.                                     *)
RECURSIVE TokenEnd(_, _, _)
TokenEnd(s, until, i) ==
  IF i > Len(s) THEN Len(s) + 1
  ELSE IF Chr(s, i) \in until /\ (i = 1 \/ Chr(s, i - 1) # "\\") THEN i
  ELSE TokenEnd(s, until, i + 1)
TokenRaw(s, until) ==
  LET e == TokenEnd(s, until, 1) IN [tok |-> UpTo(s, e - 1), rest |-> From(s, e)]

Unescapable == {",", "\"", " ", "="}
RECURSIVE UnescapeFrom(_, _, _)
UnescapeFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF Chr(s, i) = "\\" /\ i < Len(s) /\ Chr(s, i + 1) \in Unescapable
       THEN UnescapeFrom(s, i + 2, acc \o Chr(s, i + 1))
       ELSE UnescapeFrom(s, i + 1, acc \o Chr(s, i))
Unescape(s) == UnescapeFrom(s, 1, "")
Token(s, until) == LET t == TokenRaw(s, until) IN [tok |-> Unescape(t.tok), rest |-> t.rest]

RECURSIVE EscapeFrom(_, _, _, _)
EscapeFrom(s, cs, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE EscapeFrom(s, cs, i + 1, acc \o (IF Chr(s, i) \in cs THEN "\\" ELSE "") \o Chr(s, i))
Escape(s, cs) == EscapeFrom(s, cs, 1, "")
EscapeTag(s) == Escape(s, {",", "=", " "})
EscapeMeasurement(s) == Escape(s, {",", " "})

-----------------------------------------------------------------------------
(* Quoted strings: a backslash escapes a following quote or backslash.       *)
RECURSIVE QuoteEnd(_, _)
QuoteEnd(s, i) ==   \* position of the closing quote, 0 if there is none
  IF i > Len(s) THEN 0
  ELSE IF Chr(s, i) = "\\" /\ i < Len(s) /\ Chr(s, i + 1) \in {"\"", "\\"} THEN QuoteEnd(s, i + 2)
  ELSE IF Chr(s, i) = "\"" THEN i
  ELSE QuoteEnd(s, i + 1)
RECURSIVE UnquoteFrom(_, _, _)
UnquoteFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF Chr(s, i) = "\\" /\ i < Len(s) /\ Chr(s, i + 1) = "\""
       THEN UnquoteFrom(s, i + 2, acc \o "\"")
       ELSE UnquoteFrom(s, i + 1, acc \o Chr(s, i))
QuotedString(s) ==
  IF Len(s) < 2 \/ Chr(s, 1) # "\"" THEN [ok |-> FALSE]
  ELSE LET e == QuoteEnd(s, 2)
       IN  IF e = 0 THEN [ok |-> FALSE]
           ELSE [ok |-> TRUE, raw |-> SubSeq(s, 2, e - 1),
                 val |-> UnquoteFrom(SubSeq(s, 2, e - 1), 1, ""), rest |-> From(s, e + 1)]
Quote(s) == "\"" \o Escape(s, {"\""}) \o "\""

-----------------------------------------------------------------------------
(* Measurement and tags.  `line` has no terminator.                          *)
RECURSIVE TagsFrom(_, _, _)
TagsFrom(m, s, tags) ==
  IF s = "" THEN [ok |-> TRUE, m |-> m, tags |-> tags, rest |-> "", sp |-> FALSE]
  ELSE IF Chr(s, 1) = " " THEN [ok |-> TRUE, m |-> m, tags |-> tags, rest |-> From(s, 2), sp |-> TRUE]
  ELSE LET k == Token(From(s, 2), {"=", " ", ","}) IN
       IF k.tok = "" \/ ~StartsWith(k.rest, "=") THEN [ok |-> FALSE]
       ELSE LET v == Token(From(k.rest, 2), {",", " "}) IN
            IF v.tok = "" THEN [ok |-> FALSE]
            ELSE TagsFrom(m, v.rest, Append(tags, <<k.tok, v.tok>>))
ParseTags(line) ==
  LET t == Token(line, {",", " "}) IN TagsFrom(t.tok, t.rest, <<>>)
WellFormed(line) == ParseTags(TrimNL(line)).ok

Sorted(tags) == \A i \in 1..(Len(tags) - 1) : CmpStr(tags[i][1], tags[i + 1][1]) <= 0
TagBag(tags) == [t \in {tags[i] : i \in 1..Len(tags)} |->
                   Len(SelectSeq(tags, LAMBDA u : u = t))]
RECURSIVE InsertTag(_, _)
InsertTag(tags, t) ==
  IF tags = <<>> THEN <<t>>
  ELSE IF CmpStr(t[1], Head(tags)[1]) < 0 THEN <<t>> \o tags
  ELSE <<Head(tags)>> \o InsertTag(Tail(tags), t)
RECURSIVE SortTagsFrom(_, _, _)
SortTagsFrom(tags, i, acc) ==
  IF i > Len(tags) THEN acc ELSE SortTagsFrom(tags, i + 1, InsertTag(acc, tags[i]))
SortTags(tags) == SortTagsFrom(tags, 1, <<>>)
DistinctKeys(tags) == \A i, j \in 1..Len(tags) : tags[i][1] = tags[j][1] => i = j
TagText(tags) == Join([i \in 1..Len(tags) |-> EscapeTag(tags[i][1]) \o "=" \o EscapeTag(tags[i][2])], ",")

(* The form in which a well-formed line leaves the filter.                   *)
Canon(line) ==
  LET p == ParseTags(TrimNL(line)) IN
  IF Sorted(p.tags) THEN line
  ELSE EscapeMeasurement(p.m) \o "," \o TagText(SortTags(p.tags))
       \o (IF p.rest # "" THEN " " \o p.rest ELSE "") \o NLOf(line)
(* Equal keys may come out in either order.                                  *)
IsCanonOf(out, line) ==
  \/ out = Canon(line)
  \/ LET p == ParseTags(TrimNL(line))
         q == ParseTags(TrimNL(out))
     IN  /\ ~Sorted(p.tags) /\ ~DistinctKeys(p.tags)
         /\ q.ok /\ q.m = p.m /\ Sorted(q.tags) /\ TagBag(q.tags) = TagBag(p.tags)
         /\ q.rest = p.rest /\ NLOf(out) = NLOf(line)

-----------------------------------------------------------------------------
(* Timestamps.                                                               *)
MaxTsLen == 19
(* General form: the integer after the last space, at most 19 characters.    *)
ExtractTimestamp(line) ==
  LET s == TrimNL(line)
      i == LastIndexIn(s, {" "}, Len(s))
      t == From(s, i + 1)
  IN  IF Len(line) < 6 \/ i = 0 \/ Len(s) - i > MaxTsLen \/ ~IsIntText(t)
      THEN [found |-> FALSE]
      ELSE [found |-> TRUE, ts |-> Norm(t), off |-> i]
(* The filter only looks for nanosecond timestamps: the text after the first *)
(* space within the last 20 characters.                                      *)
ExtractNanos(line) ==
  LET s == TrimNL(line)
      from == IF Len(s) - MaxTsLen < 1 THEN 1 ELSE Len(s) - MaxTsLen
      i == IndexIn(s, {" "}, from)
      t == From(s, i + 1)
  IN  IF Len(line) < 6 \/ i = 0 \/ ~IsIntText(t) THEN [found |-> FALSE]
      ELSE [found |-> TRUE, ts |-> Norm(t), off |-> i]

MinNano == "-9223372036854775806"
MaxNano == "9223372036854775806"
ToNanos(ts, precision) ==
  LET v == CASE precision = "u"  -> MulPow10(ts, 3)
             [] precision = "ms" -> MulPow10(ts, 6)
             [] precision = "s"  -> MulPow10(ts, 9)
             [] precision = "m"  -> MulPow10(MulSmall(ts, 60), 9)
             [] precision = "h"  -> MulPow10(MulSmall(ts, 3600), 9)
             [] OTHER -> ts
  IN  IF Le(MinNano, v) /\ Le(v, MaxNano) THEN [ok |-> TRUE, ts |-> v] ELSE [ok |-> FALSE]
=============================================================================
