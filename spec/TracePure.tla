------------------------------ MODULE TracePure ------------------------------
(* Conformance of the parsing, escaping, timestamp and splitting functions:  *)
(* every recorded call has the result the specification gives for it.        *)
EXTENDS TraceBase, LineProto, Split, FiniteSets
ASSUME InitProgress

SetOf(q) == {q[i] : i \in 1..Len(q)}
Kept == Req("the input was changed", Ev.kept, Ev)

CToken == /\ Is("Token")
          /\ LET t == Token(Ev.s, SetOf(Ev.until))
             IN Eq("token", t.tok, Ev.tok) /\ Eq("remainder", t.rest, Ev.rest)
CTokenEscaped == /\ Is("TokenEscaped")
                 /\ LET t == TokenRaw(Ev.s, SetOf(Ev.until))
                    IN Eq("token", t.tok, Ev.tok) /\ Eq("remainder", t.rest, Ev.rest)
CParseTags == /\ Is("ParseTags")
              /\ LET p == ParseTags(Ev.s) IN
                   /\ Eq("well-formed", p.ok, Ev.ok)
                   /\ p.ok => /\ Eq("measurement", p.m, Ev.m)
                              /\ Eq("tags", p.tags, Ev.tags)
                              /\ Eq("remainder", p.rest, Ev.rest)
CQuoted == /\ Is("QuotedString")
           /\ LET q == QuotedString(Ev.s) IN
                /\ Eq("is a quoted string", q.ok, Ev.ok)
                /\ q.ok => /\ Eq("value", q.val, Ev.v)
                           /\ Eq("remainder", q.rest, Ev.rest)
                           /\ Eq("quoted again it can be read", TRUE, Ev.ok2)
                           /\ Eq("value quoted and read again", q.val, Ev.v2)
                           /\ Eq("remainder after the value quoted again", q.rest, Ev.rest2)
CEscape == \/ Is("EscapeTag") /\ Eq("escaped tag part", EscapeTag(Ev.s), Ev.out)
           \/ Is("EscapeMeasurement") /\ Eq("escaped measurement", EscapeMeasurement(Ev.s), Ev.out)
           \/ Is("EscapeQuoted") /\ Eq("quoted string", Quote(Ev.s), Ev.out)
           \/ Is("Unescape") /\ Eq("unescaped", Unescape(Ev.s), Ev.out)
CRoundTrip ==
  /\ Is("RoundTrip")
  /\ Eq("tags as text", TagText(Ev.tags), Ev.all)
  /\ Eq("the line can be parsed", TRUE, Ev.ok)
  /\ Eq("measurement read back", Ev.s, Ev.m2)
  /\ Eq("tags read back", Ev.tags, Ev.tags2)
  /\ Eq("remainder read back", "f=1 1", Ev.rest2)
CSubset == /\ Is("Subset")
           /\ Eq("is a subset", SetOf(Ev.tags) \subseteq SetOf(Ev.other), Ev.out)
CTimestamp == /\ Is("ExtractTimestamp") \/ Is("ExtractNanos")
              /\ LET t == IF Ev.e = "ExtractNanos" THEN ExtractNanos(Ev.s) ELSE ExtractTimestamp(Ev.s)
                 IN IF t.found THEN Eq("timestamp", t.ts, Ev.ts) /\ Eq("offset", t.off, Ev.off)
                    ELSE Eq("no timestamp", -1, Ev.off)
CToInt == /\ Is("ToInt")
          /\ Eq("is an integer", IsIntText(Ev.s), Ev.ok)
          /\ Ev.ok => Eq("value", Norm(Ev.s), Ev.v)
CCalc == /\ Is("Calc")
         /\ LET r == ToNanos(Norm(Ev.s), Ev.prec) IN
              Eq("representable", r.ok, Ev.ok) /\ (r.ok => Eq("nanoseconds", r.ts, Ev.v))
CSplit == /\ Is("Split")
          /\ Eq("the pieces are the data", TRUE, Ev.same)
          /\ Req("pieces", PiecesOK(Ev.len, SetOf(Ev.ends), Ev.max, Ev.sizes), Ev)
          /\ Eq("pieces", Pieces(Ev.len, SetOf(Ev.ends), Ev.max), Ev.sizes)

TraceInit == l = 1
TraceNext == /\ More
             /\ \/ CToken \/ CTokenEscaped \/ CParseTags \/ CQuoted \/ CEscape \/ CRoundTrip \/ CSubset
                \/ CTimestamp \/ CToInt \/ CCalc \/ CSplit
             /\ Kept
             /\ Advance
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
