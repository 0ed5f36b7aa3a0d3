------------------------------- MODULE Metrics -------------------------------
(* Metric lines: their grammar, how they are rendered, and what a message of *)
(* several of them does to a collection.                                     *)
EXTENDS Dec, FiniteSets, TLC

Malformed == [ok |-> FALSE]
RECURSIVE FindQuoted(_, _)
(* The first position >= i of s at which =" begins, 0 if none.               *)
FindQuoted(s, i) ==
  LET j == IndexIn(s, {"="}, i) IN
  IF j = 0 THEN 0 ELSE IF j < Len(s) /\ Chr(s, j + 1) = "\"" THEN j ELSE FindQuoted(s, j + 1)
RECURSIVE LabelsFrom(_, _, _)
(* Labels from position i on; next is the position after the closing brace.  *)
LabelsFrom(s, i, acc) ==
  LET j == FindQuoted(s, i)
      k == IF j = 0 THEN 0 ELSE IndexIn(s, {"\""}, j + 2)
  IN  IF j = 0 \/ j = i \/ k = 0 \/ k >= Len(s) THEN Malformed
      ELSE LET lb == [name |-> SubSeq(s, i, j - 1), value |-> IF k = j + 2 THEN "" ELSE SubSeq(s, j + 2, k - 1)] IN
           IF Chr(s, k + 1) = "}" THEN [ok |-> TRUE, labels |-> Append(acc, lb), next |-> k + 2]
           ELSE IF Chr(s, k + 1) = "," THEN LabelsFrom(s, k + 2, Append(acc, lb))
           ELSE Malformed
NameChars == {Chr("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_:", i) : i \in 1..64}
Proper(s) == s # "" /\ \A i \in 1..Len(s) : Chr(s, i) \in NameChars

RECURSIVE InsertLabel(_, _)
InsertLabel(q, x) == IF q = <<>> \/ CmpStr(x.name, Head(q).name) < 0 THEN <<x>> \o q ELSE <<Head(q)>> \o InsertLabel(Tail(q), x)
RECURSIVE SortLabels(_, _)
SortLabels(q, acc) == IF q = <<>> THEN acc ELSE SortLabels(Tail(q), InsertLabel(acc, Head(q)))
Unique(q) == Cardinality({q[i].name : i \in 1..Len(q)}) = Len(q)

(* A metric line. "strict" tells whether it is well-formed by any standard:  *)
(* the grammar takes almost anything as a name.                              *)
ParseMetric(s) ==
  LET i == IndexIn(s, {" ", "{"}, 1) IN
  IF i < 2 THEN Malformed
  ELSE LET lb == IF Chr(s, i) = " " THEN [ok |-> TRUE, labels |-> <<>>, next |-> i]
                 ELSE IF i < Len(s) /\ Chr(s, i + 1) = "}" THEN [ok |-> TRUE, labels |-> <<>>, next |-> i + 2]
                 ELSE LabelsFrom(s, i + 1, <<>>)
       IN IF ~lb.ok THEN Malformed
          ELSE IF lb.next > Len(s) \/ Chr(s, lb.next) # " " THEN Malformed
          ELSE LET v == lb.next + 1
                   t == IndexIn(s, {" "}, v)
                   value == IF t = 0 THEN From(s, v) ELSE UpTo(From(s, v), t - v)
                   stamp == IF t = 0 THEN "0" ELSE From(s, t + 1)
               IN IF ~IsIntText(value) \/ ~IsIntText(stamp) THEN Malformed
                  ELSE [ok |-> TRUE, key |-> <<UpTo(s, i - 1), SortLabels(lb.labels, <<>>)>>,
                        value |-> Norm(value), stamp |-> Norm(stamp),
                        strict |-> /\ Proper(UpTo(s, i - 1)) /\ Unique(lb.labels)
                                   /\ \A k \in 1..Len(lb.labels) : Proper(lb.labels[k].name)
                                   /\ Abs(value) = StripZeros(Abs(value)) /\ value # "-0"]

LabelText(lb) == lb.name \o "=\"" \o lb.value \o "\""
RenderKey(k) == k[1] \o (IF k[2] = <<>> THEN ""
                         ELSE "{" \o Join([i \in 1..Len(k[2]) |-> LabelText(k[2][i])], ",") \o "}")
Render(k, m) == RenderKey(k) \o " " \o m.value \o (IF Lt("0", m.stamp) THEN " " \o m.stamp ELSE "")

(* A message: lines, of which empty ones do not count.                       *)
RECURSIVE MessageFrom(_, _, _)
MessageFrom(ls, i, acc) ==
  IF i > Len(ls) THEN acc
  ELSE IF ls[i] = "\n" THEN MessageFrom(ls, i + 1, acc)
  ELSE LET m == ParseMetric(TrimNL(ls[i])) IN
       IF ~m.ok THEN [acc EXCEPT !.ok = FALSE]
       ELSE MessageFrom(ls, i + 1,
              [ok |-> TRUE, strict |-> acc.strict /\ m.strict,
               set |-> [k \in DOMAIN acc.set \cup {m.key} |->
                          IF k = m.key THEN [value |-> m.value, stamp |-> m.stamp] ELSE acc.set[k]]])
Message(ls) == MessageFrom(ls, 1, [ok |-> TRUE, strict |-> TRUE, set |-> <<>>])
Overlay(a, b) == [k \in DOMAIN a \cup DOMAIN b |-> IF k \in DOMAIN b THEN b[k] ELSE a[k]]
Served(set) == {Render(k, set[k]) : k \in DOMAIN set}
=============================================================================
