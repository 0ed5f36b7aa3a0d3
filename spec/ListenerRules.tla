---------------------------- MODULE ListenerRules ----------------------------
(* What the listener's design and its contract share: the limits at which    *)
(* pending data is sent, and lines as the listener sees them.                *)
EXTENDS LineProto

BusLimit == 1048576     \* the bus refuses larger messages
MaxDatagram == 65536

(* Pending data of `writes` writes and `size` bytes must be sent now.        *)
LimitReached(writes, size, maxCount, maxSize, datagram) ==
  size > 0 /\ (writes >= maxCount \/ maxSize - size <= datagram)

-----------------------------------------------------------------------------
(* A line is a record: text h, then n times the character c, then text t     *)
(* (long lines would be unwieldy otherwise), of b bytes in all, followed by  *)
(* a newline or not.                                                         *)
SameText(x, y) == x.b = y.b /\ x.n = y.n /\ x.h = y.h /\ x.t = y.t /\ x.c = y.c
(* Line x published for line l: the same, or with the missing newline.       *)
Published(l, x) == SameText(l, x) /\ (l.nl => x.nl)
LineSize(x) == x.b + (IF x.nl THEN 1 ELSE 0)

(* Only runs of at least ShortRun characters are told apart.                 *)
ShortRun == 64
RECURSIVE Times(_, _)
Times(c, k) == IF k = 0 THEN "" ELSE c \o Times(c, k - 1)
Normal(l) == IF l.n > 0 /\ l.n < ShortRun
             THEN [l EXCEPT !.h = l.h \o Times(l.c, l.n) \o l.t, !.c = "", !.n = 0, !.t = ""] ELSE l
(* x (not terminated) is the first part of l: of its text before the run,    *)
(* of the run, or of the text after that.                                    *)
IsFirstPart(l, x) ==
  /\ ~x.nl /\ x.b > 0 /\ x.b < LineSize(l)
  /\ IF l.n = 0 THEN x.n = 0 /\ StartsWith(l.h, x.h)
     ELSE IF x.n = 0 THEN StartsWith(l.h, x.h) \/ \E k \in 1..(ShortRun - 1) : x.h = l.h \o Times(l.c, k)
     ELSE /\ x.h = l.h /\ x.c = l.c /\ x.n <= l.n
          /\ IF x.n < l.n THEN x.t = "" ELSE StartsWith(l.t, x.t)
RestOf(l, x) ==
  LET y == [l EXCEPT !.b = l.b - x.b] IN
  IF x.n = 0 /\ Len(x.h) <= Len(l.h) THEN [y EXCEPT !.h = From(l.h, Len(x.h) + 1)]
  ELSE LET used == IF x.n = 0 THEN Len(x.h) - Len(l.h) ELSE x.n
           z == [y EXCEPT !.h = "", !.n = l.n - used]
       IN  IF z.n > 0 THEN Normal(z)
           ELSE [z EXCEPT !.h = From(l.t, Len(x.t) + 1), !.c = "", !.n = 0, !.t = ""]

(* Conversion of a line of a request to nanoseconds.                         *)
Convert(l, precision) ==
  LET s == IF l.n > 0 THEN "______" \o l.t ELSE l.h
      x == ExtractTimestamp(s \o (IF l.nl THEN "\n" ELSE ""))
      y == ToNanos(x.ts, precision)
      new == UpTo(s, x.off) \o y.ts
  IN  IF ~x.found THEN l
      ELSE IF ~y.ok THEN l
      ELSE [l EXCEPT !.h = IF l.n > 0 THEN @ ELSE new,
                     !.t = IF l.n > 0 THEN From(new, 7) ELSE @,
                     !.b = @ - Len(s) + Len(new), !.nl = TRUE]
RECURSIVE ConvertAll(_, _, _)
ConvertAll(ls, precision, i) ==
  IF i > Len(ls) THEN <<>>
  ELSE (IF LineSize(ls[i]) <= 1 THEN <<>> ELSE <<Convert(ls[i], precision)>>) \o ConvertAll(ls, precision, i + 1)
IsNanos(precision) == precision \in {"", "ns"}
=============================================================================
